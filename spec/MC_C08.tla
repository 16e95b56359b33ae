------------------------------- MODULE MC_C08 -------------------------------
(* C08: the environment of commands *)
EXTENDS Rsh
MyAlphabet == {
    "export A=1",
    "A=2",
    "export A",
    "unset A",
    "ev A",
    "A=3 ev A",
    "f",
    "export B=$A C=1",
    "ev C ; ev B",
    "pr x | ev A",
    "export -p",
    "A='x y' B=2 ev B",
    "readonly A=9",
    "export A=''",
    "export A ; A=5 ; ev A",
    "h",
    "export A=1 ; unset A ; A=2 ; ev A",
    "A=p B=q f",
    "pr \"$(ev A)\"",
    "eval 'export C=e' ; ev C",
    "D=1 ; export D ; D='a b' ; ev D",
    "ev PATH",
    "ev HOME",
    "export A=new ; . s1 ; ev S",
    "unset B",
    "exec nope ; ev A",
    "B=x nope ; ev B",
    "export a=low ; ev a ; ev A",
    "AA=2 ; export AA ; ev AA ; ev A ; unset a"}
MyPrelude == <<"f() { A=4 ; ev A ; L=5 ; ev L ; }","h() { export A=h ; export N=1 ; ev N ; A=i ; ev A ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"export S=1"}, {"A=src"}>>, x |-> ""])
MyArgs == <<>>
PrefixGone == [][(Line \in {"A=3 ev A", "A='x y' B=2 ev B", "ev A"}) => st'.s.env = st.s.env /\ st'.s.heap = st.s.heap]_vars
(* a variable comes into the environment only by export *)
OnlyExported == [][\A n \in {"A", "B", "C", "L"} : (Has(st'.s.env, n) /\ ~Has(st.s.env, n)) => (StartsWith(Line, "export") \/ Line \in {"h", "eval 'export C=e' ; ev C", "D=1 ; export D ; D='a b' ; ev D"})]_vars
==============================================================================
