------------------------------- MODULE MC_C15 -------------------------------
(* C15: namespaced contexts *)
EXTENDS Rsh
MyAlphabet == {
    "export context n=s1",
    "export context n=s2",
    "export context m=s1",
    "unset -c n",
    "pr $n::A $m::A $A",
    "n::f a",
    "m::f b",
    "A=top",
    "unset n::A",
    "readonly n::A=r",
    "export context t=self",
    "pr $t::A",
    "n::g",
    "f c",
    "export context nn=s2",
    "unset -c nn",
    "pr $nn::A $n::B",
    "nn::f x",
    "k ; pr $n::A",
    "export context n=missing",
    "unset -f n::f",
    "export context q=bad",
    "A=1 ; export context n=s1 ; pr $A",
    "unset -c zz",
    "readonly A=fix",
    "pr $n::f",
    "N::f z ; pr $N::A $n::a",
    "export context N=s2",
    "unset -c N",
    "export context s1",
    "pr $s1::A ; s1::f y",
    "unset -c s1"}
MyPrelude == <<"k() { export context n=s2 ; n::f in ; Z=1 ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=one"}, {"f() { pr f1 $1 ; }"}>>, x |-> ""]) @@ ("/R/w/s2" :> [k |-> "f", c |-> <<{"A=two ; B=x"}, {"f() { pr f2 $1 $B ; }"}, {"g() { pr g $0 ; }"}, {"pr loaded"}>>, x |-> ""]) @@ ("/R/w/bad" :> [k |-> "f", c |-> <<{"A=9 ; pr ("}>>, x |-> ""])
MyArgs == <<>>
(* what a context has of its own is not among the variables of the shell *)
Apart == [][(StartsWith(Line, "export context") => \A c \in 1..2 : DOMAIN st'.s.heap[c].v = DOMAIN st.s.heap[c].v
                                                                  /\ DOMAIN st'.s.heap[c].f = DOMAIN st.s.heap[c].f)]_vars
Loaded == [][/\ (Line = "export context n=s1" /\ ~IsVar(st, "A")) => VarOf(st', "n::A").x = "one" /\ st'.s.stat = 0
             /\ (Line = "export context n=s2" /\ ~IsVar(st, "A")) => VarOf(st', "n::A").x = "two" /\ st'.s.stat = 0
             /\ Line = "unset -c n" => ~IsVar(st', "n::A") /\ ~IsFun(st', "n::f")
             /\ Line = "A=top" => \A x \in {"n", "m"} : Has(st.s.ns, x) => st'.s.heap[st'.s.ns[x]] = st.s.heap[st.s.ns[x]]]_vars
==============================================================================
