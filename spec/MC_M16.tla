------------------------------- MODULE MC_M16 -------------------------------
(* C16: functions of several lines, in what is typed and in scripts *)
EXTENDS Rsh
MyAlphabet == {
    "f() {",
    "f() { pr one",
    "pr in $1",
    "pr 'a}' \"{\" # }",
    "",
    "# }",
    "{",
    "}",
    "} ; f b",
    "f a",
    "f a | rd",
    "f a || st 7",
    "g() { pr g ; }",
    "g() {",
    "return 3",
    "pr x {",
    "f() { pr 'a",
    "pr b' }",
    "pr a &&",
    "; }",
    "pr if",
    "pr %FF%",
    "A=2"}
MyPrelude == <<>>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* nothing of a function is run when it is defined, however its text is      *)
(* divided into lines; and it does the same as if it were on one line         *)
OneLine == [][(Len(hist') = 3 /\ hist[1] = "f() {" /\ hist[2] \in {"pr in $1", "A=2", "return 3", "g() { pr g ; }"} /\ Line = "}") =>
              st' = EvalLine(Start, AsRead(Mode, "f() { " \o hist[2] \o " ; }"))]_vars
==============================================================================
