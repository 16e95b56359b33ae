------------------------------- MODULE MC_C11 -------------------------------
(* C11: redirections *)
EXTENDS Rsh
MyAlphabet == {
    "pr a > o",
    "pr b >> o",
    "er x 2> o",
    "bo x > o 2> p",
    "rd < o",
    "pr x > o > p",
    "pr x > nodir/a && pr no",
    "pw 5 x 5> o",
    "f > o",
    "pwd >> p",
    "A=1 > p",
    "pr a > d1 ; fd",
    "rd < nofile || pr none",
    "fd",
    "0< o rd",
    "rd 0< o",
    "pr a > o ; pr b >> o ; pr c >> o ; rd < o",
    "f >> o 2> p",
    "> p",
    "2> p er y",
    "pr x > $F",
    "rd < o > p ; rd < p",
    "F=p",
    "eval 'pr e ; er e' > o 2>> p",
    "pr a > ld/o",
    "rd < d1 || pr dir",
    "bo z 2> p > o",
    "pw 7 y 7>> p",
    "h o p",
    "h o p > o",
    "h nofile p ; fd",
    "k | rd"}
MyPrelude == <<"f() { pr f ; er e ; fd ; }", "h() { pr h ; rd ; f ; } < $1 >> $2 2> e", "k() { pr k ; rd < e ; } 2> nodir/x", "k() { pr k ; er k ; rd < e ; } 2> e">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
C(s, f) == IF Has(s.w.fs, f) THEN s.w.fs[f].c ELSE <<>>
o == "/R/w/o"
p == "/R/w/p"
Contents == [][/\ Line = "pr a > o" => C(st', o) = <<{">[a]"}>> /\ st'.w.str = st.w.str
               /\ Line = "pr b >> o" => C(st', o) = Append(C(st, o), {">[b]"}) /\ st'.w.str = st.w.str
               /\ Line = "er x 2> o" => C(st', o) = <<{"E[x]"}>> /\ st'.w.str = st.w.str
               /\ Line = "bo x > o 2> p" => C(st', o) = <<{">[x]"}>> /\ C(st', p) = <<{"E[x]"}>>
               /\ Line = "pr x > o > p" => C(st', o) = <<>> /\ C(st', p) = <<{">[x]"}>>
               /\ Line = "pr x > nodir/a && pr no" => st'.w.str["out"] = st.w.str["out"] /\ st'.s.stat = 1
               /\ Line = "pw 5 x 5> o" => C(st', o) = <<{">[x]"}>>
               /\ Line = "h nofile p ; fd" => st'.w.fs = st.w.fs /\ st'.w.str["out"] = Append(st.w.str["out"], {">fd012"})
               /\ Line = "h o p" /\ Has(st.w.fs, o) => C(st', p) = C(st, p) \o <<{">[h]"}>> \o ReadBack(C(st, o)) \o <<{">[f]"}, {">fd012"}>>
                                                      /\ C(st', "/R/w/e") = <<{"E[e]"}>> /\ st'.w.str = st.w.str
               /\ Line = "A=1 > p" => C(st', p) = <<>> /\ VarOf(st', "A").x = "1"
               /\ Line = "fd" => st'.w.str["out"] = Append(st.w.str["out"], {">fd012"})
               /\ Line \in {"rd < o", "fd", "rd < nofile || pr none"} => st'.w.fs = st.w.fs]_vars
==============================================================================
