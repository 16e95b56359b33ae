------------------------------- MODULE MC_C02 -------------------------------
(* C02: lists. The alphabet is all lists of three commands; c prints its     *)
(* first argument and ends with the status that is its second. What has to   *)
(* be printed is computed here from the list, not from its tree.             *)
EXTENDS Rsh
Ops == {";", "&&", "||"}
Bit == {0, 1}
Combos == {<<b1, s1, o1, b2, s2, o2, b3, s3>> : b1 \in BOOLEAN, s1 \in Bit, o1 \in Ops, b2 \in BOOLEAN, s2 \in Bit, o2 \in Ops, b3 \in {FALSE}, s3 \in Bit}
Cmd(n, b, s) == (IF b THEN "! " ELSE "") \o "c " \o n \o " " \o NatStr(s)
Text(x) == Cmd("x", x[1], x[2]) \o " " \o x[3] \o " " \o Cmd("y", x[4], x[5]) \o " " \o x[6] \o " " \o Cmd("z", x[7], x[8])
MyAlphabet == {Text(x) : x \in Combos}
MyPrelude == <<"c() { pr $1 ; st $2 ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>

Combo == [l \in MyAlphabet |-> CHOOSE x \in Combos : Text(x) = l]
Status(b, s) == IF b THEN 1 - s ELSE s
(* from left to right: the next one is run if it is a new list, or if the    *)
(* status so far is the one its operator asks for                             *)
Runs(op, stat) == op = ";" \/ (op = "&&" /\ stat = 0) \/ (op = "||" /\ stat # 0)
Oracle(x) ==
  LET q1 == Status(x[1], x[2])
      r2 == Runs(x[3], q1)
      q2 == IF r2 THEN Status(x[4], x[5]) ELSE q1
      r3 == Runs(x[6], q2)
      q3 == IF r3 THEN Status(x[7], x[8]) ELSE q2
  IN  [out |-> <<{">[x]"}>> \o (IF r2 THEN <<{">[y]"}>> ELSE <<>>) \o (IF r3 THEN <<{">[z]"}>> ELSE <<>>), stat |-> q3]
ShortCircuit == [][/\ st'.w.str["out"] = st.w.str["out"] \o Oracle(Combo[Line]).out
                   /\ st'.s.stat = Oracle(Combo[Line]).stat]_vars
===========================================================================
