------------------------------ MODULE HashTrace ------------------------------
(* pairs of data, and whether the real hashes were equal *)
EXTENDS Hash, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Verdict(r) == IF "err" \in DOMAIN r THEN "failed"
              ELSE IF Same(r.a, r.b) # r.equal THEN (IF r.equal THEN "same hash" ELSE "other hash")
              ELSE IF ~r.kept THEN "not kept" ELSE ""
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
==============================================================================
