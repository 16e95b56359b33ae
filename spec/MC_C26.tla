------------------------------- MODULE MC_C26 -------------------------------
(* C26: subshells *)
EXTENDS Rsh
MyAlphabet == {
    "A=1",
    "A=2 | pr x",
    "cd d1 | rd",
    "f | rd",
    "f",
    "pr \"$(A=3 ; cd d1 ; pwd)\"",
    "pr $A $B ; pwd",
    "exit 3 | pr y",
    "alias k=st | pr z",
    "k 4",
    "unset A | pr u",
    "g() { pr g ; } | pr d",
    "readonly A | pr r",
    "g",
    "export A=x | ev A ; ev A",
    "eval 'A=9 ; pr $A' | rd ; pr $A",
    "pr \"$(exit 4)\" z",
    "pr \"$(unset A ; alias k=er)\" ; k",
    "f() { pr other ; } | f",
    "rd < f1 | A=5 | pr $A",
    "pr \"$(f ; pr $B)\"",
    "cd d1 | cd d2 | pwd",
    "A=bg &",
    "cd d1 &",
    "g() { A=8 ; } | g ; g",
    "export context n=s1 | pr $n::A ; pr $n::A"}
MyPrelude == <<"f() { A=f ; B=f ; cd /R/w/d1 ; alias k=pr ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=s"}>>, x |-> ""])
MyArgs == <<>>
==============================================================================
