------------------------------- MODULE MC_C06 -------------------------------
(* C06: functions *)
EXTENDS Rsh
MyAlphabet == {
    "f() { pr f $0 $1 $2 ; return 3 ; pr no ; }",
    "f() { g $2 $1 && pr ok ; }",
    "g() { pr g $1 ; st $2 ; }",
    "f a b",
    "f 0 0",
    "g x 0",
    "f 'a b' ''",
    "unset -f g",
    "unset -f f",
    "unset -f g ; g 1 || pr gone",
    "f 1 | rd",
    "h() { f $1 0 ; pr $1 $0 ; }",
    "h z y",
    "pr $1 $0",
    "f > o ; rd < o",
    "export f",
    "export g ; f 1 0",
    "g() { pr old ; } ; export g",
    "g() { pr new $1 ; } ; g 4",
    "g() { pr new $1 ; }",
    "unset f",
    "r 2",
    "f() { pr $1 ; unset -f f ; pr $0 ; }",
    "e() { g in 0 ; g() { pr inner ; } ; g ; }",
    "e",
    "f a b c d e",
    "F a ; ff b ; G",
    "F() { pr F $1 ; f $1 ; }",
    "g"}
MyPrelude == <<"r() { pr r $1 ; return $1 ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Bodies == [][/\ (Line = "f() { g $2 $1 && pr ok ; }" => IsFun(st', "f"))
             /\ (Line = "unset -f f" => ~Has(st'.s.heap[2].f, "f"))
             /\ (Line = "unset -f g" => ~Has(st'.s.heap[2].f, "g"))
             /\ (Line = "f a b" /\ IsFun(st, "f") /\ Known) => ~(\E c \in 1..2 : Has(st'.s.heap[c].v, "1"))]_vars
==============================================================================
