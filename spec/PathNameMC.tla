----------------------------- MODULE PathNameMC -----------------------------
(* The algebra of names over all short paths and references *)
EXTENDS PathName
CONSTANTS L, M
VARIABLES p, ref
Names == {"a", "b"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Refs == [abs : BOOLEAN, segs : Seqs(Names \cup {".", "..", ""}, M)]
Init == p \in Seqs(Names, L) /\ ref \in Refs
Next == p' = Resolve(p, ref) /\ ref' \in Refs /\ Len(p') <= L
Spec == Init /\ [][Next]_<<p, ref>>
Canonical == \A k \in DOMAIN p : p[k] \in Names
UpAndDown == p # <<>> => Resolve(Parent(p), [abs |-> FALSE, segs |-> <<Last(p)>>]) = p
Rel == \A q \in Seqs(Names, L) : Resolve(p, [abs |-> FALSE, segs |-> Relative(p, q)]) = q
InUp == \A q \in Seqs(Names, L) : Common(p, q) = Common(q, p) /\ Common(p, q) \in {Up(p)[k] : k \in DOMAIN Up(p)}
Assoc == \A s \in Names \cup {"..", "."} : Resolve(Resolve(p, ref), [abs |-> FALSE, segs |-> <<s>>]) = Resolve(p, [ref EXCEPT !.segs = Append(@, s)])
FreeN == {[base |-> b, num |-> k] : b \in {"a"}, k \in -1..3}
Free == \A n \in FreeN : \A t \in SUBSET FreeN : LET f == FreeName(n, t) IN f \notin t /\ f.base = n.base
TempSafe == \A o \in [name : {"", "a", "b"}, force : BOOLEAN, remove : BOOLEAN, body : {"-", "x"}] :
  LET d == "a" :> "y" IN
  LET e == TempStep(d, o) IN
  /\ "a" \in DOMAIN e
  /\ (e["a"] # "y" => o.force /\ o.name = "a")
  /\ (o.name = "" /\ o.remove => e = d)
=============================================================================
