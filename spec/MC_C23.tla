------------------------------- MODULE MC_C23 -------------------------------
(* C23: descriptors of the shell *)
EXTENDS Rsh
MyAlphabet == {
    "sf",
    "pr a > o ; sf",
    "eval 'pr a ; er b' > o 2> p ; sf",
    "eval 'pr x' > o 2> nodir/y ; sf",
    "rd < nofile ; sf",
    "pr a | rd | rd ; sf",
    "A=\"$(pr a | rd)\" ; sf",
    "A=\"$(nope)\" ; sf",
    "f > o ; sf",
    "f ; sf",
    "exec nope > o ; sf",
    "exec > o ; sf",
    ". s1 > o ; sf",
    ". s1 ; sf",
    "export context c=s1 ; sf",
    "export context d=nos > o ; sf",
    "nope | pr y ; sf",
    "pr x > nodir/y | rd ; sf",
    "pr y | nope > o 5> p ; sf",
    "cd d1 > o 6> p ; sf ; cd ..",
    "pwd 1> o 2> p 0< f1 ; sf",
    "alias k=pr > nodir/o ; sf",
    "exit x > o ; sf",
    "eval 'eval \"pr q > o\" > p' > r ; sf",
    "eval 'return 3' > o ; sf",
    "sg 9 | sg 15 ; sf",
    "pr \"$(f | rd)\" \"`f`\" ; sf",
    "pr a >> o 7>> p ; sf",
    "st 3 > o & ; sf",
    "A=5 > o ; sf",
    "unset A 3> o ; sf",
    "eval 'pr (' > o ; sf",
    "jobs > o 4< f1 ; sf",
    "fd",
    "f | f | rd > o ; sf",
    "eval 'f > p | rd' 5> o ; sf ; fd",
    "pr \"$(fd)\" \"`fd | rd`\" ; sf",
    "A=\"$(sf)\" ; pr $A ; sf",
    "pr x | pr \"$(fd)\" | rd ; sf"}
MyPrelude == <<"f() { pr f > q ; eval 'pr g' > r ; return 2 ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=1 > o2"}, {"pr s > p2 | rd"}, {"nope"}>>, x |-> ""])
MyArgs == <<>>
(* no line leaves a descriptor open *)
Same == [][(Known /\ Line # "fd") => st'.w.str["out"][Len(st'.w.str["out"])] = {IF Line = "eval 'f > p | rd' 5> o ; sf ; fd" THEN ">fd012" ELSE ">sf same"}]_vars
==============================================================================
