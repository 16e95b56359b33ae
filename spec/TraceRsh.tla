------------------------------ MODULE TraceRsh ------------------------------
(* Recorded sessions of rsh against the specification: every session starts *)
(* in a state of its own, takes its lines one after the other, and is       *)
(* compared with what was observed when it is over. The verdict of a session *)
(* is printed: "ok", "undef" (left unspecified) or what was predicted.       *)
EXTENDS RshWorld, IOUtils

Batch == JsonDeserialize(IOEnv.TRACES)
Session(i) == Batch[i]

VARIABLES i, k, st
vars == <<i, k, st>>

Init == /\ i \in 1..Len(Batch)
        /\ k = 0
        /\ LET s == Session(i)
           IN  st = Started(s.mode, s.env, Files(s.fs) @@ BaseFs, s.cwd, s.arg0, s.args, s.room)

Take == /\ k < Len(Session(i).lines)
        /\ st' = EvalLine(st, AsRead(Session(i).mode, Session(i).lines[k + 1]))
        /\ k' = k + 1
        /\ UNCHANGED i

Same(o, s) ==
  /\ o.out = Lines(s.obs.out) /\ o.err = Lines(s.obs.err) /\ o.code = s.obs.code
  /\ o.files = [p \in DOMAIN s.obs.files |-> Lines(s.obs.files[p])]

Verdict(s, f) ==
  IF f.w.undef THEN PrintT("@@" \o ToJson([i |-> i, v |-> "undef"]))
  ELSE LET o == Observed(f)
       IN  IF Same(o, s) THEN PrintT("@@" \o ToJson([i |-> i, v |-> "ok"]))
           ELSE PrintT("@@" \o ToJson([i |-> i, v |-> "bad", o |-> o]))

End == /\ k = Len(Session(i).lines)
       /\ st' = Finish(st)
       /\ Verdict(Session(i), st')
       /\ k' = k + 1
       /\ UNCHANGED i

Next == Take \/ End
Spec == Init /\ [][Next]_vars
===========================================================================
