------------------------------ MODULE TasksTrace -----------------------------
(* Judges recorded histories of real tasks; each record is a history of        *)
(* operations with what was seen on disk (not through the code under test),    *)
(* what the call did and what the code answers afterwards.                     *)
EXTENDS Tasks, Json, IOUtils, Sequences
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, l, s
ToSet(q) == {q[k] : k \in DOMAIN q}
Outs(q) == {[at |-> x[1], f |-> x[2], n |-> x[3], d |-> x[4]] : x \in ToSet(q)}
Verdict(t, res, op, b) ==
  LET seen == Outs(b.outs) IN
  IF Cardinality(seen) # Len(b.outs) THEN "run-once"
  ELSE IF \E o \in s.outs : ~\E q \in seen : <<q.at, q.f, q.n>> = <<o.at, o.f, o.n>> THEN "output-lost"
  ELSE IF \E o \in s.outs : o \notin seen THEN "output-overwritten"
  ELSE IF ~Unique([t EXCEPT !.outs = seen]) THEN "run-once"
  ELSE IF \E q \in seen \ s.outs : ~Ready(s, q.d) /\ op.op # "seq" THEN "gating"
  ELSE IF op.op = "seq" /\ seen # t.outs THEN "sequence"
  ELSE IF op.op \notin {"end", "seq"} /\ seen # t.outs THEN "output-early"
  ELSE IF op.op = "end" /\ op.how # "ok" /\ seen # t.outs THEN "output-after-failure"
  ELSE IF \E q \in seen \ t.outs : q.d \notin {o.d : o \in t.outs} THEN "output-unexpected"
  ELSE IF \E o \in t.outs : o.d \notin {q.d : q \in seen} THEN "output-missing"
  ELSE IF seen # t.outs THEN "output-name"
  ELSE IF b.incomplete # 0 THEN "output-incomplete"
  ELSE IF b.temps # Temps(t) THEN "temporary-output-left"
  ELSE IF b.templocs # TempLocs(t) THEN "temporary-directory-left"
  ELSE IF b.locbad # 0 THEN "output-directory"
  ELSE IF b.dflt # t.dflt THEN "default"
  ELSE IF b.res # res.res THEN (IF op.op = "seq" THEN "sequence" ELSE IF op.op = "start" THEN (IF ~Ready(s, op.d) THEN "gating" ELSE "run-once") ELSE "outcome")
  ELSE IF b.handlers # "ok" THEN "signal-handlers"
  ELSE IF op.op = "end" /\ op.how \notin {"ok", "exc"} /\ b.delivered # 1 THEN "signal-resent"
  ELSE IF op.op = "end" /\ op.how \in {"ok", "exc"} /\ b.delivered # 0 THEN "signal-resent"
  ELSE IF \E x \in ToSet(b.query) : x[2] # Done(t, x[1]) THEN "done"
  ELSE IF \E x \in ToSet(b.query) : <<x[3], x[4], x[5]>> # Name(t, x[1]) THEN "name"
  ELSE IF \E x \in ToSet(b.query) : x[6] # Ready(t, x[1]) THEN "ready"
  ELSE ""
Init == i = 1 /\ l = 1 /\ s = Init0
Goto(j) == IF j > Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) /\ i' = j /\ l' = 1 /\ s' = s
           ELSE i' = j /\ l' = 1 /\ s' = Init0
Next == /\ i <= Len(Trace)
        /\ LET H == Trace[i].steps IN
           IF l > Len(H) THEN Goto(i + 1)
           ELSE LET r == Step(s, H[l].op)
                    v == IF "err" \in DOMAIN H[l] THEN "error" ELSE Verdict(r.t, r, H[l].op, H[l].obs)
                IN IF v = "" THEN i' = i /\ l' = l + 1 /\ s' = r.t
                   ELSE PrintT(ToJson([bad |-> v, i |-> i, step |-> l, model |-> r.t])) /\ Goto(i + 1)
Spec == Init /\ [][Next]_<<i, l, s>>
==============================================================================
