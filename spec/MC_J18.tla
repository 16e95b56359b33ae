-------------------------------- MODULE MC_J18 --------------------------------
(* C18: background commands *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a &",
    "jb a | jb b &",
    "jb a & ; jb b",
    "pr x ; jb a & ; pr y",
    "st 3 ; jb a & ; st 4 && pr n || pr z",
    "jb b && pr y"}
MyPrograms == {}
MyExits == {0, 3}
MySignals == {9, 19, 18}
MyOthers == {}
==============================================================================
