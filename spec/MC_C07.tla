------------------------------- MODULE MC_C07 -------------------------------
(* C07: readonly variables *)
EXTENDS Rsh
MyAlphabet == {
    "readonly A=1",
    "readonly A",
    "A=2",
    "export A=3",
    "unset A",
    "export A",
    "pr $A $B",
    "f",
    "B=7",
    "eval 'A=8'",
    "A=9 ev A",
    "readonly -p",
    "A=1 | pr $A",
    ". s1",
    "A='' ; pr $A x",
    "readonly A ; A=5",
    "readonly E=",
    "E=1 ; pr $E",
    "export E=2 ; ev E",
    "readonly C=c ; f ; pr $C",
    "h ; pr $H",
    "unset -v A",
    "readonly A=1 B=2",
    "A=4 B=6 ; pr $A $B",
    "export context n=s1",
    "readonly -c -p n ; readonly -p -c n",
    "readonly context n::A=1 ; readonly n::B=2 ; readonly -c -p n",
    "a=5 ; AA=6 ; pr $A $a $AA",
    "unset a ; unset AA"}
MyPrelude == <<"f() { A=4 ; readonly B=5 ; pr $B ; B=6 ; pr $B ; }","h() { readonly H=1 ; H=2 ; unset H ; pr $H ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=s"}, {"readonly B=s"}>>, x |-> ""])
MyArgs == <<>>
==============================================================================
