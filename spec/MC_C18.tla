------------------------------- MODULE MC_C18 -------------------------------
(* C18: background commands *)
EXTENDS Rsh
MyAlphabet == {
    "gt g1 > b1 & ; wd ; op g1 ; wt b1 ; rd < b1",
    "gt g2 > b2 & ; A=2 ; op g2 ; wt b2 ; pr $A",
    "gt g3 | rd | rd > b3 & ; cd d1 ; op /R/w/g3 ; wt /R/w/b3 ; rd < ../b3 ; cd ..",
    "gt g4 > b4 & ; gt h4 | rd > c4 & ; op h4 ; op g4 ; wt b4 ; wt c4 ; rd < c4",
    "gt g5 > b5 & ; pr a | rd | rd ; op g5 ; wt b5",
    "gt g6 > b6 & ; st 3 ; pr x && op g6 ; wt b6",
    "pr $A > b7 & ; wt b7 ; rd < b7",
    "f > b8 & ; wt b8 ; rd < b8",
    "wd | rd > b9 & ; wt b9 ; rd < b9",
    "A=1",
    "A=3 &",
    "cd d1 &",
    "pr $A ; pwd ; fd",
    "st 3 &",
    "st 5 ; st 0 & ; pr on",
    "nope 2> e1 &",
    "eval 'A=9 ; pr $A' > b10 & ; wt b10 ; rd < b10 ; pr $A",
    "st 4 & ; exit",
    "alias k=pr &",
    "k q",
    "f() { A=f ; }",
    "f",
    "! st 0 &",
    "sf ; pr a | st 2"}
MyPrelude == <<"f() { pr f $A ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* the shell is as if the background command were not there *)
Apart == [][/\ (Known /\ Line \in {"A=3 &", "cd d1 &", "st 3 &", "alias k=pr &", "! st 0 &"}) => [st'.s EXCEPT !.stat = 0] = [st.s EXCEPT !.stat = 0]
            /\ (Known /\ Line \in {"A=3 &", "cd d1 &", "st 3 &", "alias k=pr &"}) => st'.s.stat = 0
            /\ (Known /\ Line = "eval 'A=9 ; pr $A' > b10 & ; wt b10 ; rd < b10 ; pr $A") => (IsVar(st', "A") = IsVar(st, "A") /\ (IsVar(st, "A") => VarOf(st', "A") = VarOf(st, "A")))]_vars
==============================================================================
