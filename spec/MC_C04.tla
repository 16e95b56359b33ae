------------------------------- MODULE MC_C04 -------------------------------
(* C04: malformed lines *)
EXTENDS Rsh
MyAlphabet == {
    "pr a |",
    "pr a && ",
    "pr a ; ; pr b",
    "pr 'a",
    "A=2 ; pr \"b",
    "pr x > > o",
    "A=3 ; pr *",
    "f() { A=4 ; pr",
    "for A",
    "cd d1 ; if",
    "pr a ; A=1",
    "pr $A",
    "pwd",
    "f() { pr f ; } ; f ) x",
    "A=5 ; pr a > ",
    "pr b ; readonly",
    "pr a & pr b",
    "A=6 )",
    "f() { A=7 ; } }",
    "pr x < ; A=8",
    "alias q=pr ; (",
    "export A=9 ; | pr",
    "A=1 ; pr a || || pr b",
    "eval 'A=2 ; pr ('",
    "pr \"$(A=3 ; pr ()\" ; pr $A",
    "pr `pr a",
    "rd < f1 > ; pr c",
    "! ! st 0",
    "case A",
    "A=1 ; while",
    "{ pr a",
    "pr ; done"}
MyPrelude == <<>>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Bad == MyAlphabet \ {"pr a ; A=1", "pr $A", "pwd", "pr b ; readonly", "eval 'A=2 ; pr ('", "pr \"$(A=3 ; pr ()\" ; pr $A", "pr `pr a"}
BadStatus == [][((Line \in Bad /\ st.s.part = "" /\ st'.s.part = "") => /\ st'.s.stat = 2 /\ st'.w.str["out"] = st.w.str["out"] /\ st'.s.heap = st.s.heap
                                 /\ st'.s.cwd = st.s.cwd /\ st'.w.fs = st.w.fs)]_vars
==============================================================================
