-------------------------------- MODULE MC_J23 --------------------------------
(* C23: descriptors and processes that are left *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a | ct",
    "jb a | ct &",
    "jb a | jb b | ct",
    "jb b",
    "pr x &",
    "jb a | pr x",
    "pr x | jb a",
    "jb a | jb b | jb c &"}
MyPrograms == {}
MyExits == {0}
MySignals == {9}
MyOthers == {}
==============================================================================
