------------------------------- MODULE MC_C30 -------------------------------
(* C30: ~/.rshrc *)
EXTENDS Rsh
VARIABLE rc             \* its lines
Lines30 == {
    "A=1",
    "export A",
    "export A=2 ; pr rc",
    "readonly A=3",
    "f() {",
    "pr in $1 $0",
    "}",
    "alias al='pr alias'",
    "cd d1",
    "st 3",
    "exit 4",
    "return 5",
    "nope",
    "pr (",
    "pr x | rd > o1",
    "{ pr g ; }",
    "export context n=s1",
    "pr %FF%",
    "# c"}
Twos == {<<l>> : l \in Lines30} \cup {<<l, m>> : l \in Lines30, m \in Lines30}
Rcs == IF Size = 2 THEN Twos ELSE Twos \cup {<<l, m, n>> : l \in Lines30, m \in Lines30, n \in Lines30}
MyAlphabet == {
    "# c",
    "pr $A $0",
    "f x || st 7",
    "ev A ; wd",
    "al y",
    "A=4 ; f y",
    "pr (",
    "unset A ; pr $n::A"}
MyPrelude == <<>>
MyFs == ("/R/w/s1" :> [k |-> "f", c |-> <<{"A=s ; pr src"}>>, x |-> ""])
MyArgs == <<>>
MyStartup == rc
Rc(l) == [k |-> "f", c |-> [i \in 1..Len(l) |-> {l[i]}], x |-> ""]
Begin(l) == Started(Mode, World.env, ("/R/home/.rshrc" :> Rc(l)) @@ ExtraFs @@ BaseFs, World.cwd, Arg0, Args, Room)
Init30 == /\ rc \in Rcs /\ st = Begin(rc) /\ hist = <<>>
          /\ rc = <<"A=1">> => PrintT("@@" \o ToJson([mode |-> Mode, args |-> Args, fs |-> ExtraFs, arg0 |-> Arg0, room |-> Room]))
Next30 == Next /\ UNCHANGED rc
Spec30 == Init30 /\ [][Next30]_<<vars, rc>>
View30 == <<View, rc>>

(* what is in it has been done as if it had been typed, at once or, when each *)
(* of its lines can be parsed, line by line                                   *)
Raw(l) == Initial("f", World.env, ("/R/home/.rshrc" :> Rc(l)) @@ ExtraFs @@ BaseFs, World.cwd, Arg0, Args, Room)
Typed(l) == LET t == After(Raw(<<>>), [i \in 1..Len(l) |-> l[i] \o "\n"]) IN t
Clean == \A i \in 1..Len(rc) : rc[i] \notin {"pr (", "pr %FF%", "{ pr g ; }", "return 5", "f() {", "pr in $1 $0", "}"}
AsTyped == (hist = <<>> /\ Clean /\ ~st.w.undef) =>
             LET t == Typed(rc)
             IN  /\ st.s.heap = t.s.heap /\ st.s.al = t.s.al /\ st.s.env = t.s.env /\ st.s.cwd = t.s.cwd
                 /\ st.s.stat = t.s.stat /\ st.s.dead = t.s.dead /\ st.w.str = t.w.str
(* whatever it is, the shell takes lines after it, unless it says exit        *)
Starts == (hist = <<>> /\ ~\E i \in 1..Len(rc) : rc[i] = "exit 4") => ~st.s.dead
(* one that can't be parsed does nothing                                      *)
Broken == (hist = <<>> /\ (Foreign(TextOf(st, "/R/home/.rshrc")) \/ ~Parse(TextOf(st, "/R/home/.rshrc")).ok)) =>
            st.s = Raw(rc).s \/ [st.s EXCEPT !.mode = "f", !.fds = Raw(rc).s.fds] = Raw(rc).s
==============================================================================
