------------------------------- MODULE MC_C10 -------------------------------
(* C10: command substitution *)
EXTENDS Rsh
MyAlphabet == {
    "pr \"$(pr a)\"",
    "pr \"x$(pr a)y\"",
    "A=\"$(pr a b)\"",
    "pr $A",
    "pr \"`wd`\" \"<$(pr)>\"",
    "pr \"$(cd d1 ; pwd)\" ; pwd",
    "B=\"$(A=sub ; pr $A)\"",
    "pr \"$(st 3)\" x",
    "pr \"$(pr 1 ; pr 2)\"",
    "pr '$(pr a)'",
    "pr \"$(rd < f1)\"",
    "f q",
    "pr \"$(exit 3)\" ; pwd",
    "pr \"$(f() { pr new ; } ; alias pr=er)\"",
    "pr \"$(pr a | rd)\"",
    "pr \"$(eval 'pr e')\"",
    "pr \"$(nope)\" ; pr on",
    "A=\"$(st 3)\" ; pr $A .",
    "pr > \"$(pr o)\"",
    "pr \"$(pr a)$(pr b)\"",
    "pr \"`pr a` `pr b`\"",
    "pr \"$(pr 'a  b')\"",
    "pr \"$(pr a > o)\" ; rd < o",
    "C=\"$(pr ' x ')\" ; pr $C",
    "pr \"$(A=1 ; f $A)\"",
    "pr \"$(er e)\"",
    "\"$(rd < cmd)\" z",
    "pr \"$(pr s >> o)$(pr s >> o)\" ; rd < o",
    "pr \"$(pr s >> p)\" \"$(pr s >> p)\" \"`pr s >> p`\" ; rd < p",
    "C=\"$(fd ; fd | rd)`fd`\" ; pr $C"}
MyPrelude == <<"f() { pr \"$(pr $1)\" \"`pr $0`\" ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* what happens in a substitution stays there *)
Apart == [][Known => /\ st'.s.cwd = st.s.cwd /\ st'.s.al = st.s.al /\ st'.s.env = st.s.env
                     /\ st'.s.heap[1] = st.s.heap[1] /\ st'.s.heap[2].f = st.s.heap[2].f
                     /\ \A n \in DOMAIN st'.s.heap[2].v : st'.s.heap[2].v[n].x # "sub"]_vars
==============================================================================
