------------------------------- MODULE MC_C12 -------------------------------
(* C12: pipelines *)
EXTENDS Rsh
MyAlphabet == {
    "pr a | rd",
    "pr a | rd | rd | rd",
    "bo a | rd",
    "st 1 | st 0 && pr ok",
    "bl 40 100 | ct",
    "f | rd",
    "pr a | f",
    "rd < f1 | rd > o",
    "rd < o | ct",
    "pwd | rd",
    "! pr x | st 3",
    "nope | rd",
    "pr a | nope",
    "cd d1 | pr x ; pwd",
    "pr a | rd | ct ; fd",
    "pr a | A=5 | rd ; pr $A",
    "er x | rd",
    "bo y 2> o | rd ; rd < o",
    "bl 3 70000 | ct",
    "pr x | rd > o | rd",
    "f | f | f",
    "rd < nofile | rd",
    "st 3 | st 4 | st 5",
    "pr a | eval 'rd ; pr z' | rd",
    "k | rd",
    "pr y | k",
    "pr a | rd && pr b | rd",
    "exit 4 | rd",
    "! st 2 | st 0",
    "sg 9 | rd",
    "pr q | i1"}
MyPrelude == <<"f() { rd ; pr f ; }","k() { pr k | rd ; return 4 ; }">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
out == st.w.str["out"]
Data == [][Known => /\ Line = "pr a | rd | rd | rd" => st'.w.str["out"] = Append(out, {"<<<>[a]"})
                    /\ Line = "bo a | rd" => st'.w.str["out"] = Append(out, {"<>[a]"}) /\ st'.w.str["err"] = Append(st.w.str["err"], {"E[a]"})
                    /\ Line = "bl 40 100 | ct" => st'.w.str["out"] = Append(out, {">40 4080"})
                    /\ Line = "pr a | nope" => st'.w.str["out"] = out /\ st'.s.stat = 1
                    /\ Line = "st 1 | st 0 && pr ok" => st'.w.str["out"] = Append(out, {">[ok]"})]_vars
==============================================================================
