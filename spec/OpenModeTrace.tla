--------------------------- MODULE OpenModeTrace ---------------------------
(* Recorded uses of real files *)
EXTENDS OpenMode, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Want(r) == CASE r.t = "local" -> UseLocal(r.c, r.dm, r.rm, r.as)
             [] r.t = "h5file" -> UseH5File(r.c, r.dm, r.rm, r.act)
             [] r.t = "h5node" -> UseH5Node(r.c, r.dm, r.rm, r.data)
Verdict(r) ==
  LET w == Want(r) IN
  IF r.after # w.c THEN "content" ELSE IF r.err # w.err THEN "outcome"
  ELSE IF r.t = "local" /\ r.out # w.out THEN "read" ELSE ""
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> Want(Trace[i])]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
============================================================================
