---------------------------- MODULE GridTaskTrace ----------------------------
(* Histories of tasks on real results: every task's output must be what GStep
   makes of the recorded output before it. *)
EXTENDS GridTask, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
Shorten(g) == [axes |-> g.axes, groups |-> [a \in DOMAIN g.groups |-> [name |-> g.groups[a].name, signals |-> [b \in DOMAIN g.groups[a].signals |-> [name |-> g.groups[a].signals[b].name, data |-> SubSeq(g.groups[a].signals[b].data, 1, Min2(12, Len(g.groups[a].signals[b].data)))]]]]]
Verdict(r) ==
  LET want == GStep(r.before, r.op) IN
  IF "err" \in DOMAIN r THEN "failed"
  ELSE IF r.after.axes # want.axes THEN "axes"
  ELSE IF SameGrid(r.after, want) THEN "" ELSE "signals"
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> Shorten(GStep(Trace[i].before, Trace[i].op))]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
==============================================================================
