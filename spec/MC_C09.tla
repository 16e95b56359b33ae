------------------------------- MODULE MC_C09 -------------------------------
(* C09: aliases *)
EXTENDS Rsh
MyAlphabet == {
    "alias k=pr",
    "alias k='pr x'",
    "alias k='st 3'",
    "unalias k",
    "k a",
    "k",
    "alias",
    "alias pr='er q'",
    "pr b k",
    "f",
    "unalias -a",
    "k a | rd",
    "alias k=f",
    "alias f=k",
    "alias k",
    "alias k=",
    "alias 'a b'=c",
    "unalias nok",
    "unalias k m",
    "alias m=k",
    "m z",
    "alias k='pr \"a b\" c'",
    "k > o ; rd < o",
    "eval 'k e'",
    "alias k=\"pr 'q r'\"",
    "pr x ; k y",
    "! k",
    "alias k='pr' m='st 2'",
    "alias k='pr\t9 \t 8'",
    "alias K='pr K'",
    "alias k='pr\f7'",
    "alias m=pr\fx ; alias k=m ; eval 'm\fw'",
    "K a ; kk b",
    "unalias K"}
MyPrelude == <<"f() { pr $1 ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Table == [][~(StartsWith(Line, "alias ") \/ StartsWith(Line, "unalias")) => st'.s.al = st.s.al]_vars
(* aliases that no command has as its name make no difference *)
Names(l) == IF ~Tree[l].ok THEN {} ELSE {Tree[l].v[i].ps[j].cmds[k].name : i \in 1..1, j \in 1..1, k \in 1..1}
NotNamed == [][(Names(Line) \cap DOMAIN st.s.al = {} /\ Line \notin {"f", "k a | rd", "alias", "pr x ; k y", "eval 'k e'"} /\ ~(StartsWith(Line, "alias ") \/ StartsWith(Line, "unalias"))) =>
                 LET t == EvalParsed([st EXCEPT !.s.al = Empty], Line, Tree[Line])
                 IN  t.w = st'.w /\ [t.s EXCEPT !.al = st.s.al] = st'.s]_vars
==============================================================================
