--------------------------- MODULE PathNameTrace ---------------------------
(* What real paths answered *)
EXTENDS PathName, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Wrong(r) == LET w == Want(r)
                got == IF r.t = "temp" THEN [r.got EXCEPT !.after = ToSet(@)]
                       ELSE IF r.t = "attrs" THEN [r.got EXCEPT !.f = ToSet(@), !.g = ToSet(@)] ELSE r.got
            IN {k \in DOMAIN w : got[k] # w[k]}
Verdict(r) == IF "err" \in DOMAIN r THEN "failed" ELSE IF Wrong(r) = {} THEN "" ELSE CHOOSE k \in Wrong(r) : TRUE
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> IF v = "failed" THEN "" ELSE ToString(Want(Trace[i]))]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
============================================================================
