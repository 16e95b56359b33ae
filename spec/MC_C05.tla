------------------------------- MODULE MC_C05 -------------------------------
(* C05: variables *)
EXTENDS Rsh
MyAlphabet == {
    "A=1",
    "A=2 B=$A",
    "f",
    "f x",
    "g 7",
    "pr $A $B $L",
    "unset A",
    "A=$1",
    "B=$L",
    "L=top",
    "B='$A b'",
    "A=$B",
    "readonly L=ro",
    "pr $1 $2",
    "k",
    "A=top ; k",
    "h 3 ; pr $N",
    "A=\"$B\" B=$C",
    "A=''",
    "unset B ; pr $B",
    "f | rd",
    "eval 'L=e' ; pr $L",
    "A==1",
    "fe ; pr $1 $Q",
    "export B=x ; h 4",
    "m ; pr $A $L",
    "f ; m",
    "a=low ; pr $A $a",
    "AA=two ; pr $A $AA $a"}
MyPrelude == <<"g() { pr $A $L $1 ; L=g ; A=g ; }",
    "f() { A=f ; L=1 ; g $A ; pr $L $A $1 ; }","h() { N=$1 ; g $N ; pr $N $A ; }",
    "k() { Q=1 ; export context n=missing ; }",
    "fe() { Q=9 ; nope ; return 2 ; }",
    "u() { unset A ; unset L ; pr $A $L ; }","v() { u ; pr $A ; }","m() { L=m ; v x ; pr $A $L ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* a variable that is first assigned in a function is gone after it *)
HasL(s) == \E c \in 1..2 : Has(s.s.heap[c].v, "L")
Local2 == [][\A c \in 1..2 : \A n \in {"N", "Q", "1"} : ~Has(st'.s.heap[c].v, n)]_vars
LocalGone == [][(~HasL(st) /\ Line \notin {"L=top", "readonly L=ro", "eval 'L=e' ; pr $L"}) => ~HasL(st')]_vars
(* one that was there is assigned where it is *)
TopStays == [][(~st'.w.undef /\ Line \in {"f", "f x"} /\ IsVar(st, "A")) => VarOf(st', "A").x = "g"]_vars
==============================================================================
