---------------------------- MODULE ResampleTrace ----------------------------
(* recorded resampling of real results *)
EXTENDS Resample, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Verdict(r) == IF "err" \in DOMAIN r THEN "failed" ELSE Wrong(r.before, r.op, r.after)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> Grids(Trace[i].before, Trace[i].op)]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
==============================================================================
