------------------------------ MODULE RshWorld ------------------------------
(* The world that sessions start in: world.json, which the driver sets up.   *)
EXTENDS RshSem, Json, SequencesExt
World == JsonDeserialize("world.json")
Lines(c) == [i \in 1..Len(c) |-> ToSet(c[i])]
Files(j) == [p \in DOMAIN j |-> [k |-> j[p].k, c |-> Lines(j[p].c), x |-> j[p].x]]
BaseFs == Files(World.fs)

(* a line as the shell gets it: with its end, unless a line editor or the    *)
(* command line cuts that off                                                *)
AsRead(mode, l) == IF mode = "f" THEN l \o "\n" ELSE l

(* what is observed of a finished session *)
Observed(st) ==
  [out |-> st.w.str["out"], err |-> st.w.str["err"], code |-> st.s.code,
   files |-> [p \in {q \in DOMAIN st.w.fs : st.w.fs[q].k = "f" /\ st.w.fs[q].x = ""} |-> st.w.fs[p].c]]
===========================================================================
