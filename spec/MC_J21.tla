-------------------------------- MODULE MC_J21 --------------------------------
(* C21: signals from the keyboard *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a",
    "jb a | jb b",
    "jb b &",
    "jb a ; pr y",
    "jb a && pr y || pr n",
    "fg %1",
    "jobs"}
MyPrograms == {}
MyExits == {0}
MySignals == {15, 2}
MyOthers == {Act("tstp", "", 0), Act("int", "", 0), Act("eof", "", 0)}
==============================================================================
