----------------------------- MODULE NxProcTrace ------------------------------
(* Judges recorded histories of real files with processes: the answer to each  *)
(* call and everything that is in the file afterwards.                         *)
EXTENDS NxProc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, l, s
\* b.procs: sequence of [p, k, par, deps, seq, valid, sum]; b.ents: sequence of names
Ix(b, p) == CHOOSE j \in DOMAIN b.procs : b.procs[j].p = p
Verdict(t, b) ==
  LET ps == {b.procs[j].p : j \in DOMAIN b.procs}
      ok(j) == b.procs[j]
  IN
  IF {b.ents[j] : j \in DOMAIN b.ents} # t.ents THEN "entries"
  ELSE IF ps # DOMAIN t.node THEN "nodes"
  ELSE IF \E j \in DOMAIN b.procs : b.procs[j].k # t.node[b.procs[j].p].k THEN "kind"
  ELSE LET J == {j \in DOMAIN b.procs : b.procs[j].k = "proc"} IN
  IF \E j \in J : b.procs[j].par # t.node[b.procs[j].p].par THEN "parameters"
  ELSE IF \E j \in J : b.procs[j].deps # t.node[b.procs[j].p].deps THEN "dependencies"
  ELSE IF \E j \in J : b.procs[j].seq # t.node[b.procs[j].p].seq THEN "sequence-index"
  ELSE IF \E j, k \in J : (b.procs[j].sum = b.procs[k].sum) # (t.node[b.procs[j].p].id = t.node[b.procs[k].p].id) THEN "checksum"
  ELSE LET ask(k) == {j \in J : b.procs[j].api # <<>> /\ b.procs[j].api[1][k] #
              CASE k = 1 -> t.node[b.procs[j].p].deps
                [] k = 2 -> t.node[b.procs[j].p].seq
                [] k = 3 -> Valid(t, b.procs[j].p)
                [] k = 4 -> b.procs[j].p
                [] k = 5 -> b.procs[j].sum
                [] k = 6 -> t.node[b.procs[j].p].par} IN
  IF ask(1) # {} THEN "query-dependencies"
  ELSE IF ask(2) # {} THEN "query-sequence-index"
  ELSE IF ask(3) # {} THEN "valid-checksum"
  ELSE IF ask(4) # {} THEN "process-of"
  ELSE IF ask(5) # {} THEN "query-checksum"
  ELSE IF ask(6) # {} THEN "query-parameters"
  ELSE IF {b.iter[j] : j \in DOMAIN b.iter} # Procs(t) THEN "iteration"
  ELSE IF t.ents # {} /\ b.last # LastEntry(t) THEN "last-entry"
  ELSE ""
Init == i = 1 /\ l = 1 /\ s = Init0
Goto(j) == IF j > Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) /\ i' = j /\ l' = 1 /\ s' = s
           ELSE i' = j /\ l' = 1 /\ s' = Init0
Bad(v, w) == PrintT(ToJson([bad |-> v, i |-> i, step |-> l, want |-> w])) /\ Goto(i + 1)
Next == /\ i <= Len(Trace)
        /\ LET H == Trace[i].steps IN
           IF l > Len(H) THEN Goto(i + 1)
           ELSE LET outs == Outcomes(s, H[l].op) IN
             IF "err" \in DOMAIN H[l] THEN Bad("error", outs)
             ELSE LET m == {r \in outs : r.res = H[l].obs.res} IN
               IF m = {} THEN Bad("answer", {r.res : r \in outs})
               ELSE LET r == CHOOSE r \in m : TRUE
                        v == Verdict(r.t, H[l].obs)
                    IN IF v # "" THEN Bad(v, 0)
                       ELSE i' = i /\ l' = l + 1 /\ s' = r.t
Spec == Init /\ [][Next]_<<i, l, s>>
==============================================================================
