------------------------------- MODULE MC_C27 -------------------------------
(* C27: failures *)
EXTENDS Rsh
MyAlphabet == {
    "nope ; pr on",
    "cd nodir ; pr on",
    "pr x > nodir/y ; pr on",
    "unset ; pr on",
    "readonly R=1 ; R=2 ; pr on",
    ". nosrc ; pr on",
    "eval 'pr (' ; pr on",
    "exec nope ; pr on",
    "f ; pr on",
    "alias ; unalias ; pr on",
    "exit x ; pr on",
    "return x ; pr on",
    "export context ; pr on",
    "fg 9 ; pr on",
    "bg 9 ; pr on",
    "pr x | nope | pr y",
    "rd < nodir/x | rd ; pr on",
    "nope && pr no || pr on",
    "d1 ; ./f1 ; pr on",
    "sg 9 ; sg 11 ; pr on",
    "readonly R=1 ; export R=3 ; unset R ; pr $R",
    "eval 'nope > nodir/x ; st 4' || pr on",
    "pr x > nodir/y || pr on",
    "A=1 > nodir/y ; pr $A on",
    "f > nodir/y ; pr on",
    "cd nodir > o ; wd",
    "unset -f nof ; unset -c noc ; pr on",
    "exec ; pr on",
    "exec ./f1 ; pr on",
    "export context n=nofile ; pr on",
    "st 1 | nope ; pr on",
    "pr \"$(nope ; cd nodir)\" on",
    "fg ; bg ; fg x ; pr on",
    "cd d1 ; nope ; . nosrc ; pwd ; cd ..",
    "nope 5> o 6>> p ; fd",
    "alias k=nope ; k ; pr on"}
MyPrelude == <<"f() { nope ; cd nodir ; pr f ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
Others == {"pr x | nope | pr y", "readonly R=1 ; export R=3 ; unset R ; pr $R", "A=1 > nodir/y ; pr $A on", "cd nodir > o ; wd", "cd d1 ; nope ; . nosrc ; pwd ; cd ..", "nope 5> o 6>> p ; fd", "pr \"$(nope ; cd nodir)\" on"}
GoesOn == [][(Known /\ Line \notin Others) => st'.w.str["out"] # st.w.str["out"] /\ st'.w.str["out"][Len(st'.w.str["out"])] = {">[on]"} /\ st'.s.stat = 0]_vars
==============================================================================
