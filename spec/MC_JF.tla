-------------------------------- MODULE MC_JF --------------------------------
(* a script *)
EXTENDS JobsRun
MyPrelude == <<>>
MyLines == {
    }
MyPrograms == {
    <<"jb a", "jb b">>,
    <<"jb a &", "jb b | jb c", "jobs">>,
    <<"jb a && pr y || pr n", "pr z">>,
    <<"jb a & ; jb b &", "jobs", "fg %1", "jobs">>,
    <<"jb a | jb b | ct", "jb c", "jobs">>,
    <<"jb a", "jobs", "bg %1", "jb b", "fg %1">>,
    <<"jb a &", "st 3 ; exit">>}
MyExits == {0, 3}
MySignals == {9, 19, 18}
MyOthers == {Act("int", "", 0)}
==============================================================================
