-------------------------------- MODULE MC_J17 --------------------------------
(* C17, C18: what the shell waits for, and what it does not *)
EXTENDS JobsRun
MyPrelude == <<"k() { jb a ; jb b && pr k ; }">>
MyLines == {
    "jb a",
    "jb a | jb b",
    "jb b | jb a | jb c",
    "jb a && pr y ; jb b",
    "jb a || pr n",
    "jb c &",
    "k",
    "jb a | ct"}
MyPrograms == {}
MyExits == {0, 3}
MySignals == {9}
MyOthers == {}
==============================================================================
