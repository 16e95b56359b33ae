------------------------------ MODULE JobsBatch ------------------------------
(* What Jobs says of given histories. A history has what it is to begin with *)
(* and a list of wishes; a wish is a kind of action and a number that picks  *)
(* one of those that are possible then. The outcome of what the shell does   *)
(* on its own in between may depend on the order: all of them are followed.  *)
EXTENDS Jobs, Json, IOUtils, SequencesExt

Batch == JsonDeserialize(IOEnv.TRACES)
MyPrelude == <<"k() { jb a ; jb b && pr k ; }", "m() { jb c | ct || pr m ; jobs ; }">>

VARIABLES i, k, ss, done
vars == <<i, k, ss, done>>

\* lines are parsed when they come
TreeOf(s) == [l \in {s.in[n] : n \in 1..Len(s.in)} |-> Parse(l)]

RECURSIVE Closure(_, _)
Closure(front, got) ==
  IF front = {} THEN got ELSE
  LET n == [s \in front |-> Internal(s, TreeOf(s))]
  IN  Closure(UNION {n[s] : s \in front}, got \cup {s \in front : n[s] = {}})

Possible(s, w) ==
  LET names == SetToSeq({s.procs[p].nm : p \in {q \in Live(s) : s.procs[q].kind = "jb"}})
      all == CASE w.a = "line" -> <<Act("line", w.x, 0)>>
               [] w.a = "exit" -> [j \in 1..Len(names) |-> Act("exit", names[j], w.n)]
               [] w.a = "sig"  -> [j \in 1..Len(names) |-> Act("sig", names[j], w.n)]
               [] OTHER -> <<Act(w.a, "", 0)>>
  IN  SelectSeq(all, LAMBDA e : CanAct(s, e) /\ (e.a = "line" => Len(s.in) = 0 /\ (Contains(e.x, "@") => s.pc = "idle") /\ Cardinality(Live(s)) < 6))

Init == /\ i \in 1..Len(Batch) /\ k = 0 /\ done = <<>>
        /\ ss = Closure({IF Batch[i].mode = "i" THEN Blank("i")
                         ELSE [Blank(Batch[i].mode) EXCEPT !.in = Batch[i].lines, !.eof = TRUE]}, {})
        /\ (k = 0 => (Batch[i].mode # "i" => PrintT("@@" \o ToJson([i |-> i, k |-> 0, e |-> Act("script", "", 0), o |-> SetToSeq({Seen(s) : s \in ss})]))))

Step == /\ k < Len(Batch[i].w)
        /\ k' = k + 1 /\ UNCHANGED i
        /\ LET w == Batch[i].w[k + 1]
               p == Possible(CHOOSE s \in ss : TRUE, w)
               e == p[1 + (w.r % Len(p))]
           IN  IF p = <<>> \/ (\E s \in ss : ~CanAct(s, e)) \/ Cardinality(ss) > 12
               THEN UNCHANGED <<ss, done>>
               ELSE /\ ss' = Closure({Env(s, e) : s \in ss}, {})
                    /\ done' = Append(done, e)
                    /\ PrintT("@@" \o ToJson([i |-> i, k |-> k + 1, e |-> e, o |-> SetToSeq({Seen(s) : s \in ss'})]))
Next == Step
Spec == Init /\ [][Next]_vars

(* whatever happens in between, the histories agree on the processes         *)
Agree == k >= 0 \/ \A s, t \in ss : [p \in 1..Len(s.procs) |-> s.procs[p].st] = [p \in 1..Len(t.procs) |-> t.procs[p].st] /\ s.pc = t.pc
===========================================================================
