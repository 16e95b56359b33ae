------------------------------- MODULE MC_S22 -------------------------------
(* C22: a command followed by all sequences of up to three characters *)
EXTENDS Rsh
MyPrelude == <<"f() { pr f $1 ; return 3 ; }", "A=v", "alias w='pr\fx'">>
MyEpilogue == <<"pr on $A", "f 1 || st 4">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Strings(S, n) == UNION {[1..k -> S] : k \in 1..n}
RECURSIVE Glue(_, _)
Glue(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Glue(Tail(q), sep)
(* whatever the line is, the shell takes the next one *)
GoesOn == [][(~st'.w.undef /\ ~st'.s.dead /\ st'.s.part = "") =>
             LET a == EvalLine(st', "pr on") IN a.w.undef \/ a.w.str["out"] # st'.w.str["out"]]_vars

Characters == {"p", "$", "\"", "'", "(", ")", "{", "}", ";", "&", "|", "<", ">", "#", "=", "`", "\\", " ", "!", "*", "~", "\t", "1", "\f", "%FF%"}
MyAlphabet == {"pr x" \o Glue(q, "") : q \in Strings(Characters, Size)} \cup {Glue(q, "") : q \in Strings(Characters, 2)} \cup {"w" \o Glue(q, "") : q \in Strings(Characters, 2)}
==============================================================================
