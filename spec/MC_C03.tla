------------------------------- MODULE MC_C03 -------------------------------
(* C03: exit statuses *)
EXTENDS Rsh
MyAlphabet == {
    "st 7",
    "sg 9",
    "sg 15",
    "nope",
    "pr x ; ; pr y",
    "! st 0",
    "! st 3",
    "st 300",
    "f 5",
    "f 300",
    "exit",
    "exit 300",
    "A=1",
    "cd nodir",
    "st 1 | st 0",
    "st 0 | st 6",
    "sg 9 | st 0",
    "pr x > nodir/y",
    "eval 'st 6'",
    "eval 'nope' ; pr x",
    "f 4 | st 0",
    "st 0 | f 5",
    "exit 3 | st 0",
    "! f 2",
    "st 2 ; A=1",
    "st 4 && pr n ; exit",
    "exit 1 2",
    "f",
    "! nope",
    "./f1",
    "d1",
    "st 5 ; eval ''",
    "st 6 ; ",
    "alias",
    "g",
    "bo x > o > nodir/y",
    "export",
    "cd d1 ; pwd > nodir/x",
    "h",
    "return 4",
    "st 3 # c"}
MyPrelude == <<"f() { return $1 ; pr no ; }","g() { st 9 ; }",
    "h() { exit 12 ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* the status that these lines leave, whatever was before *)
Expect == ("st 7" :> 7) @@ ("sg 9" :> 137) @@ ("sg 15" :> 143) @@ ("nope" :> 1) @@ ("pr x ; ; pr y" :> 2) @@ ("! st 0" :> 1) @@
          ("! st 3" :> 0) @@ ("st 300" :> 44) @@ ("f 5" :> 5) @@ ("A=1" :> 0) @@ ("cd nodir" :> 1) @@ ("st 1 | st 0" :> 0) @@
          ("st 0 | st 6" :> 6) @@ ("sg 9 | st 0" :> 0) @@ ("pr x > nodir/y" :> 1)
Statuses == [][~st'.w.undef =>
               /\ Line \in DOMAIN Expect => st'.s.stat = Expect[Line]
               /\ Line = "exit" => st'.s.dead /\ st'.s.code = st.s.stat % 256
               /\ Line = "exit 300" => st'.s.dead /\ st'.s.code = 44]_vars
==============================================================================
