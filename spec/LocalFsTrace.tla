---------------------------- MODULE LocalFsTrace ----------------------------
(* Judges recorded steps of the real local file system proxy: every record     *)
(* holds the tree before, the operation, its result and the tree after.        *)
EXTENDS LocalFs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLE i

AsQuery(v) == [exists |-> v.exists, lexists |-> v.lexists, isdir |-> v.isdir, isfile |-> v.isfile,
               islink |-> v.islink, kids |-> {v.kids[j] : j \in DOMAIN v.kids}, dest |-> v.dest]

Verdict(r) ==
  LET pre == Unflat(r.pre)
      s == LStep(pre, r.o)
  IN IF ~s.dom THEN ""
     ELSE IF s.res = "oserr" THEN (IF r.res = "ok" THEN "must-fail"
                                   ELSE IF Unflat(r.post) # s.t THEN "tree-after-failure" ELSE "")
     ELSE IF r.res # s.res THEN "result-should-be-" \o s.res
     ELSE IF r.post = <<>> THEN "root-gone"
     ELSE IF Unflat(r.post) # s.t THEN "tree-after"
     ELSE IF r.res = "ok" /\ r.o.op \in {"read", "move", "copy"} /\ r.val # s.val THEN "value"
     ELSE IF r.res = "ok" /\ r.o.op = "query" /\ AsQuery(r.val) # s.val THEN "query"
     ELSE ""

Init == i = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i + 1])
           IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> v, i |-> i + 1]))
        /\ IF i + 1 = Len(Trace) THEN PrintT(ToJson([judged |-> Len(Trace)])) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
