-------------------------------- MODULE MC_J19 --------------------------------
(* C19: the table of jobs *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a &",
    "jb a | jb b &",
    "jb c",
    "jobs",
    "pr x &",
    "pr x ; jobs",
    "jb a & ; jb b &"}
MyPrograms == {}
MyExits == {0}
MySignals == {9, 19}
MyOthers == {}
==============================================================================
