---------------------------- MODULE AlignTrace ----------------------------
(* recorded calls of align(): one record per call, with what was called and
   what came out *)
EXTENDS Align, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
(* redo events carry the call they repeat *)
Want(r) == Result(r.im, r.call)
Verdict(r) ==
  LET w == Want(r) IN
  IF "err" \in DOMAIN r THEN "failed"
  ELSE IF r.cof # w.cof THEN "cof"
  ELSE IF \E s \in DOMAIN r.shape : r.shape[s] # w.shape THEN "shape"
  ELSE IF \E s \in DOMAIN r.off : r.off[s] # w.off THEN "image"
  ELSE IF "axes" \in DOMAIN r /\ \E d \in {1, 2} : r.axes[d] # AxisOut(r.im, r.call, d, r.axin[d]) THEN "axes"
  ELSE IF r.place # Place(r.dest, r.over, r.used, w.shape) THEN "place"
  ELSE IF ~r.kept THEN "kept"
  ELSE ""
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> Want(Trace[i])]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
===========================================================================
