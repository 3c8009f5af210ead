------------------------------ MODULE NdIndexMC ------------------------------
(* Properties of the indexing model itself, over every index of up to two items
   and a 2x3 array: indexing twice is indexing once, sizes, an assignment reads
   back. *)
EXTENDS NdIndex, TLC
sh0 == <<2, 3>>
Items(n) == {[t |-> "i", v |-> v] : v \in -n..n - 1}
  \cup {[t |-> "s", a |-> a, b |-> b, c |-> c] : a \in {None, 0, 1, -1, n + 1}, b \in {None, 0, 1, -1, -n - 1, n + 2}, c \in {None, 1, 2, -1, -2}}
  \cup {[t |-> "l", v |-> v] : v \in UNION {[1..k -> -1..n - 1] : k \in 0..2}}
  \cup {[t |-> "b", v |-> v] : v \in [1..n -> BOOLEAN]}
Extra == {[t |-> "e"], [t |-> "n"]}
VARIABLES ix
Init == ix = <<>>
Next == /\ Len(ix) < 2
        /\ \E it \in Items(IF NUsed(ix) = 0 THEN 2 ELSE 3) \cup Extra :
             /\ it.t = "e" => \A k \in DOMAIN ix : ix[k].t # "e"
             /\ ix' = Append(ix, it)
Spec == Init /\ [][Next]_ix
Ids == [p \in 1..Prod(sh0) |-> p]
Shaped == Valid(ix, sh0) => \A g \in Gets(ix, sh0) :
  /\ Len(g.at) = Prod(g.sh)
  /\ \A k \in DOMAIN g.at : g.at[k] \in DOMAIN Ids
\* positions and slices only: never the same element twice, and no list dimension
Once == (Valid(ix, sh0) /\ \A k \in DOMAIN ix : ix[k].t \in {"i", "s", "n", "e"}) =>
  \A g \in Gets(ix, sh0) : Cardinality({g.at[k] : k \in DOMAIN g.at}) = Len(g.at)
\* a slice with step -1 of everything, twice, is everything
Rev == [t |-> "s", a |-> None, b |-> None, c |-> -1]
Twice == LET g == Get(<<Rev, Rev>>, sh0, FALSE) IN [k \in DOMAIN g.at |-> g.at[g.at[k]]] = Ids
\* dimensions: positions remove one each (or all together become one with a list), new ones add one
Ndim == Valid(ix, sh0) => \A g \in Gets(ix, sh0) :
  LET ex == Expand(ix, 2)
      c(T) == Cardinality({k \in DOMAIN ex : ex[k].t \in T})
  IN Len(g.sh) = IF HasList(ex) THEN 1 + c({"s", "n"}) ELSE c({"s", "n"})
\* selecting the complement of booleans splits the array
Split == (Len(ix) = 1 /\ ix[1].t = "b") =>
  LET neg == <<[t |-> "b", v |-> [k \in DOMAIN ix[1].v |-> ~ix[1].v[k]]]>>
      a == Get(ix, sh0, FALSE)
      b == Get(neg, sh0, FALSE)
  IN {a.at[k] : k \in DOMAIN a.at} \cup {b.at[k] : k \in DOMAIN b.at} = DOMAIN Ids
     /\ Len(a.at) + Len(b.at) = Len(Ids)
==============================================================================
