------------------------------- MODULE MC_C14 -------------------------------
(* C14: the current directory *)
EXTENDS Rsh
MyAlphabet == {
    "cd d1",
    "cd d2",
    "cd ..",
    "cd",
    "cd /R/w",
    "cd nodir",
    "cd f1",
    "pwd",
    "wd > o",
    "cd ld",
    "cd ../../R/..",
    "cd d1 | pwd",
    "f",
    "pr \"$(cd d1 ; pwd)\"",
    "cd $HOME && pwd",
    ". ../w/s1",
    "cd /",
    "cd d1/../d1/./d2",
    "cd /R/w/nodir/..",
    "cd d1 ; cd d2 ; pwd",
    "wd",
    "rd < ../w/f1",
    "cd ''",
    "pr x > here ; cd d1 ; pr y > here ; rd < ../here",
    "cd d1 d2",
    "cd d1 &",
    "/R/bin/wd",
    "HOME=/R/w/d1",
    "unset HOME",
    "cd d1 && nope ; wd"}
MyPrelude == <<"f() { cd /R/w/d1 ; wd ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"cd d1"}, {"wd"}>>, x |-> ""])
MyArgs == <<>>
Moves == [][Known => /\ (Line \in {"cd nodir", "cd f1"} /\ st.s.cwd # "/R") => st'.s.cwd = st.s.cwd /\ (st'.s.stat = 1)
                     /\ (Line = "cd" /\ Has(st.s.env, "HOME") /\ st.s.env["HOME"] = "/R/home") => st'.s.cwd = "/R/home"
                     /\ Line = "cd /R/w" => st'.s.cwd = "/R/w"
                     /\ Line \in {"pwd", "wd > o", "cd d1 | pwd", "pr \"$(cd d1 ; pwd)\""} => st'.s.cwd = st.s.cwd]_vars
Told == [][(Line = "pwd" /\ Known) => st'.w.str["out"] = Append(st.w.str["out"], {st.s.cwd})]_vars
==============================================================================
