----------------------------- MODULE NdIndexTrace -----------------------------
(* Records of indexing and of histories of assignments on the real arrays. *)
EXTENDS NdIndex, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i
(* reading: values of the array are its positions 1.. *)
(* an index that selects nothing in one dimension need not be refused for
   another one *)
Nothing(ix, sh) ==
  NUsed(ix) <= Len(sh) /\
  LET ex == Expand(ix, Len(sh)) IN
  \E k \in DOMAIN ex : LET n == sh[DimOf(ex, k)] IN
    \/ ex[k].t = "s" /\ SliceList(ex[k], n) = <<>>
    \/ IsList(ex[k]) /\ ListOf(ex[k], n) = <<>>
GetVerdict(r) ==
  IF ~Valid(r.ix, r.sh)
    THEN (IF \/ "err" \in DOMAIN r.got /\ r.got.err = "IndexError"
             \/ Nothing(r.ix, r.sh) /\ "at" \in DOMAIN r.got /\ r.got.at = <<>> THEN "" ELSE "not-refused")
  ELSE IF "err" \in DOMAIN r.got
    THEN (IF Broadcast(r.ix, r.sh) /\ r.got.err = "IndexError" THEN "" ELSE "refused")
  ELSE IF \E g \in Gets(r.ix, r.sh) : r.got.sh = g.sh /\ r.got.at = g.at THEN "" ELSE "elements"
SetVerdict(r) ==
  IF ~Valid(r.ix, r.sh)
    THEN (IF ("err" \in DOMAIN r.got \/ Nothing(r.ix, r.sh)) /\ r.got.after = r.before THEN "" ELSE "not-refused")
  ELSE IF "err" \in DOMAIN r.got
    THEN (IF Broadcast(r.ix, r.sh) /\ r.got.err = "IndexError" THEN "" ELSE "refused")
  ELSE IF r.op = "set"
    THEN (IF \E g \in Gets(r.ix, r.sh) : AssignedOk(r.before, r.got.after, g, r.w) THEN "" ELSE "assigned")
  ELSE LET g == Get(r.ix, r.sh, FALSE)
           f(x, y) == CASE r.op = "add" -> x + y [] r.op = "sub" -> x - y [] r.op = "mul" -> x * y
                        [] r.op = "div" -> x \div y
       IN IF \A p \in DOMAIN r.before :
               LET ks == Addressed(g, p) IN
               IF ks = {} THEN r.got.after[p] = r.before[p]
               ELSE \E k \in ks : r.got.after[p] = f(r.before[p], IF Len(r.w) = 1 THEN r.w[1] ELSE r.w[k])
          THEN "" ELSE "arithmetic"
Verdict(r) == IF r.k = "get" THEN GetVerdict(r) ELSE SetVerdict(r)
Want(r) == IF Valid(r.ix, r.sh) THEN Get(r.ix, r.sh, FALSE) ELSE [sh |-> <<>>, at |-> <<>>]
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN v # "" => PrintT(ToJson([bad |-> v, i |-> i, want |-> Want(Trace[i])]))
        /\ i = Len(Trace) => PrintT(ToJson([judged |-> Len(Trace)]))
Spec == Init /\ [][Next]_i
==============================================================================
