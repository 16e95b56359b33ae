------------------------------- MODULE MC_T22 -------------------------------
(* C22: all sequences of up to three words and operators *)
EXTENDS Rsh
MyPrelude == <<"f() { pr f $1 ; return 3 ; }", "A=v">>
MyEpilogue == <<"pr on $A", "f 1 || st 4">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Strings(S, n) == UNION {[1..k -> S] : k \in 1..n}
RECURSIVE Glue(_, _)
Glue(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Glue(Tail(q), sep)
(* whatever the line is, the shell takes the next one *)
GoesOn == [][(~st'.w.undef /\ ~st'.s.dead /\ st'.s.part = "") =>
             LET a == EvalLine(st', "pr on") IN a.w.undef \/ a.w.str["out"] # st'.w.str["out"]]_vars

Tokens == {"pr", "A=x", "$A", "'q r'", "\"$(pr s)\"", ">", "o", "<", "2>", "|", "||", "&&", "&", ";", "!",
           "{", "}", "(", ")", "f", "for", "#c", "=", "return", "$", "`pr b`", "exit", "()", "\f", "w", "alias w='pr\f'", "%FF%"}
MyAlphabet == {Glue(q, " ") : q \in Strings(Tokens, Size)}
==============================================================================
