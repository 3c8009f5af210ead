------------------------------ MODULE AxisTrace ------------------------------
(* recorded operations on real axes: each is judged from the recorded axis
   before it *)
EXTENDS Axis, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Tells(ob) == ob.vals # <<>> /\ ob.says = Says(ob.vals)
            /\ ("par" \in DOMAIN ob /\ ob.kind \notin {"list"} => ob.vals = Values(ob.kind, ob.par))
Verdict(r) ==
  LET want == Answer(r.before, r.o)
      vals == After(r.before, r.o)
  IN
  IF "err" \in DOMAIN r THEN "failed"
  ELSE IF r.o.op = "item" /\ r.refused # (r.before.kind # "list") THEN "refused"
  ELSE IF r.after.vals # vals THEN "values"
  ELSE IF r.after.unit # UnitAfter(r.before, r.o) THEN "unit"
  ELSE IF ~Tells(r.after) THEN "says"
  ELSE IF "vals" \in DOMAIN want /\ r.got.vals # want.vals THEN "answer"
  ELSE IF "vals" \in DOMAIN want /\ want.vals # <<>> /\ ~Tells(r.got) THEN "answer says"
  ELSE IF r.o.op = "to" /\ r.got.unit # r.o.unit THEN "answer unit"
  ELSE IF "at" \in DOMAIN want /\ r.at # want.at THEN "place"
  ELSE IF "yes" \in DOMAIN want /\ r.yes # want.yes THEN "equal"
  ELSE ""
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> IF v = "failed" THEN <<>> ELSE [answer |-> Answer(Trace[i].before, Trace[i].o), after |-> After(Trace[i].before, Trace[i].o)]]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
==============================================================================
