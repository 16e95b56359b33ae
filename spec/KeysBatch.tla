------------------------------ MODULE KeysBatch ------------------------------
(* What Edit says of given sequences of keys.                                *)
EXTENDS Edit, RshWorld, IOUtils
Batch == JsonDeserialize(IOEnv.TRACES)
VARIABLES i, k, x
vars == <<i, k, x>>
Init == /\ i \in 1..Len(Batch) /\ k = 0
        /\ x = Session(Started("i", Batch[i].env, Files(Batch[i].fs) @@ BaseFs, Batch[i].cwd, "rsh", <<>>, Batch[i].room))
Take == /\ k < Len(Batch[i].keys) /\ k' = k + 1 /\ UNCHANGED i
        /\ x' = Key(x, Batch[i].keys[k + 1])
End == /\ k = Len(Batch[i].keys) /\ k' = k + 1 /\ UNCHANGED i
       /\ x' = Over(x)
       /\ PrintT("@@" \o ToJson(IF x'.st.w.undef THEN [i |-> i, undef |-> TRUE]
                                ELSE [i |-> i, undef |-> FALSE, groups |-> x'.groups, prompts |-> x'.prompts, kept |-> Kept(x'), offers |-> x'.offers, o |-> Observed(x'.st)]))
Next == Take \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
