------------------------------- MODULE MC_C28 -------------------------------
(* C28: exec *)
EXTENDS Rsh
MyAlphabet == {
    "exec pr a 'b c' \"\" ; pr no",
    "exec st 7",
    "exec nope ; pr on",
    "exec",
    "exec ev A",
    "exec wd",
    "exec ./t3 x",
    "exec d1/t1",
    "exec ./f1 || pr on",
    "exec d1 ; pr on",
    "exec -c ev A",
    "exec -c ev PATH",
    "exec -l pr x",
    "exec -a st pr 4",
    "exec -a pr st 4",
    "exec -ca er pr 1",
    "exec -c -a wd pr",
    "exec -cl t1 q",
    "exec -l -cl pr x",
    "exec -a st -cl pr 3",
    "exec -l -ca er pr 5",
    "exec -a st -l ev A",
    "exec -l -a x/st pr 4",
    "exec -la x/st pr 5",
    "exec -c -la x/ev pr A",
    "exec -l -a x/wd -c pr",
    "exec -a ; pr on",
    "exec -x pr y ; pr on",
    "exec pr x > o",
    "exec rd < f1",
    "exec bo z 2> p > o",
    "exec pr x > nodir/y ; pr on",
    "exec fd",
    "exec fd > o 5> p",
    "export A=1",
    "A=2",
    "cd d1",
    "f ; pr no",
    "exec pr x | rd ; pr on",
    "pr y | exec rd ; pr on",
    "pr \"$(exec pr s ; pr no)\" on",
    "eval 'exec pr e ; pr no' ; pr no",
    "exec st 3 && pr no || pr no",
    "exec st 256",
    "exec sg 9",
    "exec $A",
    "B=x exec ev B",
    "readonly PATH=/R/b2 ; exec t3",
    ". /R/w/s1 ; pr no",
    "alias k='exec pr al' ; k",
    "exec pr p > o & ; wt o ; rd < o"}
MyPrelude == <<"f() { exec pr f $1 ; pr no ; }">>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"exec pr src"}, {"pr no"}>>, x |-> ""])
MyArgs == <<>>
(* what exec becomes is the last thing; without a command that can be run the line goes on *)
NothingAfter == [][Known => st'.w.str["out"] = st.w.str["out"] \/ st'.w.str["out"][Len(st'.w.str["out"])] # {">[no]"}]_vars
Becomes == [][/\ (~st'.w.undef /\ Line \in {"exec st 7", "exec pr x > o", "f ; pr no", "eval 'exec pr e ; pr no' ; pr no", "exec fd"}) => st'.s.dead
              /\ (~st'.w.undef /\ Line \in {"exec nope ; pr on", "exec pr x | rd ; pr on", "pr \"$(exec pr s ; pr no)\" on", "exec pr x > nodir/y ; pr on"}) => ~st'.s.dead
              /\ (~st'.w.undef /\ Line = "exec st 7") => st'.s.code = 7]_vars
==============================================================================
