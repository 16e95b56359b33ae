-------------------------------- MODULE MC_JR --------------------------------
(* Jobs in a race: the lines come and the processes end while the shell is busy *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    "jb a &",
    "jb b",
    "jb c | jb d",
    "jb e | jb f &",
    "jobs",
    "jb g ; jb h && pr y",
    "fg %1"}
MyPrograms == {
    }
MyExits == {0, 3}
MySignals == {9}
MyOthers == {}
==============================================================================
