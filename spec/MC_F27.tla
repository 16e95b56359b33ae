------------------------------- MODULE MC_F27 -------------------------------
(* C27 when there is no room for more than Room processes *)
EXTENDS Rsh
MyAlphabet == {
    "pr a",
    "pr a | rd",
    "pr a | rd | rd",
    "pr a > o | rd",
    "nope | rd",
    "st 3",
    "! pr a | rd",
    "pr a && pwd || A=2",
    "pr a | rd && pwd || A=3",
    "pwd",
    "A=\"$(pwd)\"",
    "A=\"$(pr b)\"",
    "pr \"$(pr c)\"",
    "pr \"`pr c`\" | rd",
    "f",
    "f() { pr f ; pwd ; return 4 ; }",
    "f > o2 ; cd d1",
    "rd < o",
    "pr $A",
    "eval 'pr e | rd ; pwd'",
    ". f2",
    "alias pr='rd | rd'",
    "export A ; ev A",
    "rd < o | rd > o3 | pr end",
    "pw 3 x 3> o",
    "pwd > o ; rd < o",
    "exec pr x",
    "export context n=f2",
    "jobs",
    "pr a & ; pwd",
    "exit"}
MyPrelude == <<>>
MyFs == "/R/w/f2" :> [k |-> "f", c |-> <<{"pr s"}, {"pwd"}>>, x |-> ""]
MyArgs == <<>>
(* the line fails as a whole and says so *)
Hungry == {"pr a | rd | rd", "rd < o | rd > o3 | pr end"}
Refused == [][(Line \in Hungry /\ Known /\ Room < 3 /\ "pr" \notin DOMAIN st.s.al) =>
                (st'.s.stat = 1 /\ st'.w.str["err"][Len(st'.w.str["err"])] = {"!"} /\ st'.w.str["out"] = st.w.str["out"])]_vars
(* what needs no process goes as ever *)
Works == [][Line = "pwd" => (st'.s.stat = 0 /\ Len(st'.w.str["out"]) > Len(st.w.str["out"]))]_vars
(* a shell that was refused a process has the same state but for its status *)
Untouched == [][(Line \in {"pr a", "pr a | rd", "st 3", "! pr a | rd", "nope | rd"} /\ Known) =>
                 [st'.s EXCEPT !.stat = 0] = [st.s EXCEPT !.stat = 0]]_vars
==============================================================================
