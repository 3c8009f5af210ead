------------------------------ MODULE XiaTrace ------------------------------
(* Reads of real data sets *)
EXTENDS Xia, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Bad(r, x) ==
  LET w == Want(r.d, x.c, x.v, x.ix, x.what) IN
  IF "err" \in DOMAIN w THEN (IF "err" \in DOMAIN x THEN "" ELSE "read")
  ELSE IF "err" \in DOMAIN x THEN "failed"
  ELSE IF w.sh # x.got.sh THEN "shape" ELSE IF w.v # x.got.v THEN "values" ELSE ""
Names(r) == IF "err" \in DOMAIN r THEN "failed"
            ELSE IF ToSet(r.got) # ToSet(r.files) \/ Len(r.got) # Len(r.files) THEN "files" ELSE IF ~InOrder(r.got) THEN "order" ELSE ""
Report(r) ==
  IF r.t = "names" THEN Names(r) # "" => PrintT(ToJson([bad |-> Names(r), i |-> i, j |-> 0, want |-> ""]))
  ELSE \A j \in DOMAIN r.reads :
    Bad(r, r.reads[j]) # "" =>
      PrintT(ToJson([bad |-> Bad(r, r.reads[j]), i |-> i, j |-> j,
                     want |-> ToString(Want(r.d, r.reads[j].c, r.reads[j].v, r.reads[j].ix, r.reads[j].what))]))
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ Report(Trace[i])
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
=============================================================================
