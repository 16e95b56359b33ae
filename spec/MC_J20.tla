-------------------------------- MODULE MC_J20 --------------------------------
(* C20: stopped jobs *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a",
    "jb a | jb b",
    "jb b &",
    "fg %1",
    "fg %2 && pr y || pr n",
    "bg %1",
    "jobs",
    "fg @a1 ; jobs"}
MyPrograms == {}
MyExits == {0, 3}
MySignals == {18, 19, 9}
MyOthers == {Act("tstp", "", 0)}
==============================================================================
