------------------------------ MODULE H5FsMC -----------------------------
(* Exhaustive exploration of H5Fs over a small tree; every edge inside the  *)
(* domain is printed for replay into the real proxy.                           *)
EXTENDS H5Fs, Json, IOUtils

Names == {"a", "b"}
MaxNodes == IF "VP_NODES" \in DOMAIN IOEnv THEN atoi(IOEnv.VP_NODES) ELSE 2
MaxLinks == IF "VP_LINKS" \in DOMAIN IOEnv THEN atoi(IOEnv.VP_LINKS) ELSE 1

Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in Names}
B == {TRUE, FALSE}
Ops == {[op |-> "mkdir", p |-> p, rec |-> r, force |-> f] : p \in Paths, r \in B, f \in B}
  \cup {[op |-> "write", p |-> p, c |-> c, mode |-> m] : p \in Paths, c \in {1, 2}, m \in {"w", "x", "a"}}
  \cup {[op |-> "read", p |-> p] : p \in Paths}
  \cup {[op |-> "remove", p |-> p, rec |-> r] : p \in Paths, r \in B}
  \cup {[op |-> "move", p |-> p, d |-> d, force |-> f, rename |-> r] :
            p \in Paths, d \in Paths, f \in B, r \in B}
  \cup {[op |-> "copy", p |-> p, d |-> d, force |-> f, follow |-> r] :
            p \in Paths, d \in Paths, f \in B, r \in B}
  \cup {[op |-> "link", p |-> p, d |-> d] : p \in Paths, d \in Paths}
  \cup {[op |-> "query", p |-> p] : p \in Paths}

VARIABLES t, act
Init == t = [p \in {<<>>} |-> Dir] /\ act = [op |-> "init"]
Small(x) == /\ Cardinality(DOMAIN x) <= MaxNodes + 1
            /\ \A p \in DOMAIN x : Len(p) <= 2
            /\ Cardinality({p \in DOMAIN x : x[p].k = "l"}) <= MaxLinks
Next == \E o \in Ops :
          LET r == H5Step(t, o) IN
          /\ r.dom
          /\ t' = r.t
          /\ act' = [o |-> o, res |-> r.res, val |-> r.val]
Spec == Init /\ [][Next]_<<t, act>>
View == t
Bound == Small(t)

Emit == /\ Small(t)
        /\ PrintT(ToJson([f |-> Flat(t), o |-> act'.o, res |-> act'.res, val |-> act'.val, t |-> Flat(t')]))

(* ------------------------- what the model guarantees --------------------- *)
TypeOK == TreeOK(t)
\* a refusal changes nothing (a forced overwrite may already have cleared its target)
RefusalInert == act'.res \in Refusals => t' = t
\* only remove, write and force lose file contents
NoSilentLoss ==
  LET o == act'.o IN
  (o.op \notin {"remove", "write"} /\ ~(o.op \in {"move", "copy"} /\ o.force)) =>
     \A c \in {1, 2} : CountOf(t', c) >= CountOf(t, c)
\* a copy leaves its source as it was, a move leaves nothing behind and the same subtree elsewhere
CopyKeepsSource ==
  (act'.o.op = "copy" /\ act'.res = "ok") =>
     \A q \in Sub(t, act'.o.p) : Has(t', q) /\ t'[q] = t[q]
MoveRelocates ==
  (act'.o.op = "move" /\ act'.res = "ok") =>
     LET d == LReal(t', act'.val) IN
     /\ Sub(t', act'.o.p) = {}
     /\ {Below(act'.o.p, q) : q \in Sub(t, act'.o.p)} = {Below(d, q) : q \in Sub(t', d)}
     /\ \A q \in Sub(t, act'.o.p) : t[q].k # "l" => t'[d \o Below(act'.o.p, q)] = t[q]
\* no link is left pointing into a tree that was moved away from under it
LinksFollow ==
  (act'.o.op \in {"move", "copy"} /\ act'.res = "ok") =>
     LET d == LReal(t', act'.val)
         p == act'.o.p
     IN \A x \in Sub(t', d) : t'[x].k = "l" =>
          LET n == t'[x] IN
          ~Pfx(p, IF n.u < 0 THEN n.t ELSE Parent(x) \o n.t) \/ (IsLink(t, p) /\ x = d)
Props == [][RefusalInert /\ NoSilentLoss /\ CopyKeepsSource /\ MoveRelocates /\ LinksFollow]_<<t, act>>
=============================================================================
