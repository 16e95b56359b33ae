------------------------------- MODULE MC_C13 -------------------------------
(* C13: looking up commands *)
EXTENDS Rsh
MyAlphabet == {
    "t1 a",
    "t2",
    "t3",
    "./t3 'x y'",
    "d1/t1",
    "PATH=/R/b2:/R/bin",
    "PATH=/R/b2:/R/b1:/R/bin",
    "cd d1",
    "nope",
    "/R/b1/t2",
    "export PATH=/R/bin:/R/b1",
    "../t3",
    "PATH=d1:/R/bin",
    "t2() { pr fun ; }",
    "t2() { t2 ; }",
    "PATH=/R/b1/t1:/R/b2:/R/bin",
    "PATH=/R/b1:/R/b2:/R/bin",
    "t3 'a b' \"\"",
    "unset -f t2",
    "PATH=",
    "d1",
    "ld/t1",
    "eval 't1 q' | rd",
    "unset PATH",
    "PATH=nodir::/R/b1:/R/bin",
    "N=t1",
    "$N z",
    "T1 a ; t ; t11",
    "pwd() { pr fun ; }",
    "pwd ; pwd | pwd",
    "pwd > bg1 &"}
MyPrelude == <<>>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
tag(x) == Append(st.w.str["out"], {">tag:" \o x})
Found == [][/\ Line = "/R/b1/t2" => st'.w.str["out"] = tag("/R/b1/t2")
            /\ (Line = "t2" /\ ~IsFun(st, "t2") /\ IsVar(st, "PATH")) =>
                 LET P == VarOf(st, "PATH").x IN
                 /\ P = "/R/b2:/R/b1:/R/bin" => st'.w.str["out"] = tag("/R/b2/t2")
                 /\ P = "/R/bin:/R/b1:/R/b2" => st'.w.str["out"] = tag("/R/b1/t2")
                 /\ P = "/R/bin:/R/b1" => st'.w.str["out"] = tag("/R/b1/t2")
                 /\ P = "d1:/R/bin" => st'.w.str["out"] = st.w.str["out"] /\ st'.s.stat = 1
            \* a builtin, function or not
            /\ Line = "pwd ; pwd | pwd" =>
                 st'.w.str["out"] = st.w.str["out"] \o <<{st.s.cwd}, {st.s.cwd}>>
            /\ Line = "nope" => st'.w.str["out"] = st.w.str["out"] /\ st'.s.stat = 1]_vars
==============================================================================
