------------------------------- MODULE MC_C29 -------------------------------
(* C29: comments and blanks *)
EXTENDS Rsh
MyAlphabet == {
    "pr a # b",
    "# c ; pr x",
    "   pr   a   ;   pr b   ",
    "pr a;pr b",
    "pr a;",
    "",
    "pr 'a # b' # 'c",
    "A=1 # x",
    "pr $A#b",
    "pr a && # c",
    "f() { pr f ; } # d",
    "f # e ; pr x",
    "pr a ; # c | pr b",
    "	pr	a",
    "  A=2   B=3  ;  pr  $A  $B",
    "pr a#b #c",
    "#",
    "   # x",
    "pr a|rd|rd",
    "pr a>o;rd<o",
    "pr a  >  o  ;  rd  <  o",
    "st 1||pr b&&pr c",
    "g(){ pr g;pr h; };g",
    "! st 0 # x",
    "pr \"#\" '#' a#",
    "	",
    "pr a 	# b",
    "f  ;  ; x",
    "A=3#y ; pr $A"}
MyPrelude == <<>>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Pairs == {<<"pr a;pr b", "   pr   a   ;   pr b   ">>}
Same == [][\A x \in Pairs : Line = x[2] => st' = EvalParsed(st, x[1], Tree[x[1]])]_vars
==============================================================================
