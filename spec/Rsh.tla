-------------------------------- MODULE Rsh --------------------------------
(* The shell as a transition system: in each step it takes one line of      *)
(* Alphabet. The modules MC_* give the alphabet and state the properties.    *)
(* Every history is printed together with what has to be observed when the  *)
(* shell is given these lines and then the end of its input; the driver      *)
(* replays them in the real shell.                                           *)
EXTENDS RshWorld, IOUtils

CONSTANTS Alphabet,     \* the lines
          Prelude,      \* lines that come before
          Mode, Args, ExtraFs

Depth == IF "DEPTH" \in DOMAIN IOEnv THEN NatOf(IOEnv.DEPTH) ELSE 2
(* "paths": all sequences of lines. "edges": for every reachable state of   *)
(* the shell (its output left aside) one sequence to it, and all lines       *)
(* after it.                                                                 *)
Room == IF "ROOM" \in DOMAIN IOEnv THEN NatOf(IOEnv.ROOM) ELSE Lots
Size == IF "SIZE" \in DOMAIN IOEnv THEN NatOf(IOEnv.SIZE) ELSE 2
Cover == IF "COVER" \in DOMAIN IOEnv THEN IOEnv.COVER ELSE "paths"

VARIABLES st, hist
vars == <<st, hist>>

Arg0 == IF Mode = "f" THEN "/R/script.rsh" ELSE "rsh"
Tree == [l \in Alphabet |-> Parse(AsRead(Mode, l))]
RECURSIVE After(_, _)
After(s, ls) == IF ls = <<>> THEN s ELSE After(EvalLine(s, AsRead(Mode, ls[1])), Tail(ls))
Start == After(Started(Mode, World.env, ExtraFs @@ BaseFs, World.cwd, Arg0, Args, Room), Prelude)

Init == /\ st = Start /\ hist = <<>>
        /\ PrintT("@@" \o ToJson([mode |-> Mode, args |-> Args, fs |-> ExtraFs, arg0 |-> Arg0, room |-> Room]))

(* some modules redefine these: lines that come after, and what there is in   *)
(* ~/.rshrc                                                                   *)
Epilogue == <<>>
Startup == <<>>
Say(h, s) ==
  LET f == Finish(After(s, Epilogue))
  IN  f.w.undef \/ PrintT("@@" \o ToJson([h |-> Prelude \o h \o Epilogue, o |-> Observed(f), rc |-> Startup]))

Step(l) ==
  /\ Len(hist) < Depth /\ ~st.s.dead /\ ~st.w.undef
  /\ st' = EvalParsed(st, AsRead(Mode, l), Tree[l])
  /\ hist' = Append(hist, l)
  /\ (Cover = "edges" \/ Len(hist') = Depth \/ st'.s.dead) => Say(hist', st')

Next == \E l \in Alphabet : Step(l)
Spec == Init /\ [][Next]_vars

(* contexts that can't be reached any more, and their numbers, do not matter *)
Shell == [st.s EXCEPT !.heap = [i \in {st.s.stk[j] : j \in 1..Len(st.s.stk)} \cup {st.s.ns[n] : n \in DOMAIN st.s.ns} |-> st.s.heap[i]]]
View == IF Cover = "edges" THEN <<Shell, st.w.fs, st.w.pend, st.w.undef>> ELSE <<st, hist>>

---------------------------------------------------------------------------
(* What holds of every line in every state, whatever is in the alphabet. It  *)
(* is stated in terms of what can be seen, not of how lines are evaluated.   *)
Line == hist'[Len(hist')]             \* the line of a step
Known == ~st'.w.undef /\ ~st'.s.dead

TypeOK ==
  /\ st.s.stat \in Int /\ st.s.dead \in BOOLEAN
  /\ \A i \in 1..Len(st.s.stk) : st.s.stk[i] \in DOMAIN st.s.heap
  /\ \A n \in DOMAIN st.s.ns : st.s.ns[n] \in DOMAIN st.s.heap
  /\ \A p \in DOMAIN st.w.fs : st.w.fs[p].k \in {"d", "f", "l"}
  /\ st.s.cwd \in DOMAIN st.w.fs /\ st.w.fs[st.s.cwd].k = "d"

(* between two lines no context of a function and no redirection is left     *)
AtRest == st.w.undef \/ st.s.dead \/
  /\ Len(st.s.stk) = 2 /\ st.s.depth = 0 /\ ~st.s.ret /\ ~st.s.e
  /\ DOMAIN st.s.fds = {0, 1, 2} /\ st.s.fds[1] = [k |-> "s", id |-> "out"] /\ st.s.fds[2] = [k |-> "s", id |-> "err"]
  /\ st.s.held = {} /\ ~st.s.fork

(* a line that is not complete changes nothing, until it is *)
PartWaits == [][(st'.s.part # "" /\ ~st'.w.undef) => /\ st'.w = st.w /\ [st'.s EXCEPT !.part = ""] = [st.s EXCEPT !.part = ""]
                                   /\ EndsWith(st'.s.part, AsRead(Mode, Line)) /\ StartsWith(st'.s.part, st.s.part)]_vars

(* what has been written stays *)
OutputGrows == [][Len(st'.w.str["out"]) >= Len(st.w.str["out"]) /\ Len(st'.w.str["err"]) >= Len(st.w.str["err"])]_vars

(* a line, or the text that it is the end of, that can't be parsed changes    *)
(* nothing but the status                                                    *)
BadText == /\ st'.s.part = "" /\ ~st'.w.undef
           /\ IF st.s.part = "" THEN ~Tree[Line].ok
              ELSE ~Parse(st.s.part \o (IF Mode = "i" THEN "\n" ELSE "") \o AsRead(Mode, Line)).ok
BadLineInert == [][BadText => /\ [st'.s EXCEPT !.stat = 0, !.part = ""] = [st.s EXCEPT !.stat = 0, !.part = ""]
                              /\ st'.w.fs = st.w.fs /\ st'.s.stat = 2]_vars

(* a readonly variable of a context stays there as it is *)
LocksHold == [][\A c \in 1..2 : \A n \in DOMAIN st.s.heap[c].v :
                 (st.s.heap[c].v[n].r /\ ~st'.w.undef) =>
                   (n \in DOMAIN st'.s.heap[c].v /\ st'.s.heap[c].v[n] = st.s.heap[c].v[n])]_vars

(* commands get what variables have been exported with *)
EnvFollows == st.w.undef \/ \A n \in DOMAIN st.s.env : n \in DOMAIN st.s.heap[1].v =>
                 (st.s.heap[1].v[n].x = st.s.env[n] \/ \E i \in 2..Len(st.s.stk) : n \in DOMAIN st.s.heap[st.s.stk[i]].v)

(* the stages of a pipeline leave the shell as it is *)
Piped(l) == Tree[l].ok /\ \A i \in 1..Len(Tree[l].v) : \A j \in 1..Len(Tree[l].v[i].ps) :
               LET p == Tree[l].v[i].ps[j] IN (Len(p.cmds) > 1 \/ p.bg) /\ \A k \in 1..Len(p.cmds) : p.cmds[k].k = "simple"
StagesApart == [][(Piped(Line) /\ st.s.part = "" /\ ~st'.w.undef) =>
                   [st'.s EXCEPT !.stat = 0, !.heap = <<>>] = [st.s EXCEPT !.stat = 0, !.heap = <<>>]]_vars
===========================================================================
