------------------------------- MODULE MC_C16 -------------------------------
(* C16: the same text in different ways *)
EXTENDS Rsh
MyAlphabet == {
    "A=1 ; pr $A",
    "eval 'A=1 ; pr $A'",
    ". s1",
    "source ./s1",
    "f() { pr $1 ; }",
    "eval 'f() { pr $1 ; }'",
    "f x",
    "cd d1 && pr $A | rd",
    "eval 'cd d1 && pr $A | rd'",
    ". /R/w/s2",
    "eval eval 'A=2'",
    "eval 'pr ('",
    "eval 'return 3'",
    "eval st 4",
    "eval 'A=5' 'pr $A'",
    "eval pr \"a b\" c",
    "eval \"pr 'a b' c\"",
    ". s3 p 'q r'",
    "f() { . s1 ; pr $A ; }",
    "f",
    "eval 'exit 3'",
    "eval 'pr a # b'",
    "eval",
    "eval ''",
    "eval 'pr a ; pr (' ; pr on",
    ". nos ; pr on",
    "source",
    "eval 'A=1 ;' 'pr $A' | rd",
    "eval 'nope' ; pr on",
    "g() { eval 'return 4' ; pr no ; }",
    "g",
    ". s4",
    "st 3 ; . s4 ; pr on"}
MyPrelude == <<>>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=1 ; pr $A"}>>, x |-> ""]) @@ ("/R/w/s2" :> [k |-> "f", c |-> <<{"cd d1 && pr $A | rd"}>>, x |-> ""]) @@ ("/R/w/s4" :> [k |-> "f", c |-> <<{"st 1 ||"}, {"pr alt &&"}, {""}, {"pr m |"}, {"rd ; st 0 &&"}, {"pr x ; st 2"}, {"f() { pr one"}, {"pr two $1 ; } ; f q # }"}>>, x |-> ""])
        @@ ("/R/w/s3" :> [k |-> "f", c |-> <<{"pr $1 $2 $0"}, {"g() {"}, {"pr s3 $1"}, {"}"}, {"B=3 ; g z"}>>, x |-> ""])
MyArgs == <<>>
Pairs == {<<"A=1 ; pr $A", "eval 'A=1 ; pr $A'">>, <<"A=1 ; pr $A", "source ./s1">>, <<"cd d1 && pr $A | rd", ". /R/w/s2">>,
          <<"cd d1 && pr $A | rd", "eval 'cd d1 && pr $A | rd'">>, <<"f() { pr $1 ; }", "eval 'f() { pr $1 ; }'">>}
Same == [][\A x \in Pairs : (Line = x[2] /\ Known /\ (x[2] = "source ./s1" => st.s.cwd = "/R/w")) => st' = EvalParsed(st, x[1], Tree[x[1]])]_vars
==============================================================================
