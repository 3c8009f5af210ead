-------------------------------- MODULE XiaMC --------------------------------
(* Reading is the same whatever is read first: over all indices of a small
   data set and all configurations, what is read of a part is that part of what
   is read of the whole; the parts (maps, lines) agree with the whole; summing
   what is read of every detector alone is reading the sum; selecting detectors
   is selecting along the last dimension. *)
EXTENDS Xia
VARIABLES c, ix
D == [shape |-> <<2, 2, 2, 2>>, labels |-> <<"xia00", "xia01">>, det |-> <<2, 1>>, nstatdet |-> 2,
      data |-> [k \in 1..32 |-> k % 7], stats |-> [k \in 1..96 |-> <<1000, 500, 2000, 4000, 0, 999, 3000>>[(k % 7) + 1]],
      ctrs |-> [k \in 1..8 |-> k % 3], cdet |-> <<"">>, gone |-> <<>>]
Items == {[t |-> "i", v |-> 1], [t |-> "i", v |-> -2], Full, [t |-> "s", a |-> 1, b |-> None, c |-> None],
          [t |-> "s", a |-> None, b |-> None, c |-> -1], [t |-> "l", v |-> <<1, 0>>]}
Configs == [skip : {<<>>, <<"xia00">>}, keep : {<<>>, <<"xia00">>, <<"xia01">>}, dt : BOOLEAN, sum : BOOLEAN,
            norm : {[k |-> "none", n |-> 0, f |-> 1, l |-> <<0, 0>>], [k |-> "ctr", n |-> 1, f |-> 2, l |-> <<0, 3>>]}, short : BOOLEAN]
Init == c \in {x \in Configs : Used(D, x) # <<>>} /\ ix = <<>>
Next == Len(ix) < 3 /\ \E it \in Items : ix' = Append(ix, it) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, ix>>
V == [k |-> "stack", maps |-> <<>>]
Idx == [t |-> "e"]
Part(w, x) == LET g == Get(x, w.sh, FALSE) IN [sh |-> g.sh, v |-> [q \in DOMAIN g.at |-> w.v[g.at[q]]]]
PartOfWhole == Data(D, c, V, ix) = Part(Data(D, c, V, <<>>), ix)
One == ix = <<>> => \A m \in 0..1 :
  /\ Data(D, c, [k |-> "image", m |-> m, rows |-> <<>>], <<>>) = Data(D, c, V, <<[t |-> "i", v |-> m]>>)
  /\ Stats(D, c, [k |-> "image", m |-> m, rows |-> <<>>], <<>>) = Stats(D, c, V, <<[t |-> "i", v |-> m]>>)
  /\ c.norm.k = "none" => \A r \in 0..1 : Data(D, c, [k |-> "line", m |-> m, r |-> r], <<>>) = Data(D, c, [k |-> "image", m |-> m, rows |-> <<>>], <<[t |-> "i", v |-> r]>>)
Sums == ix = <<>> /\ c.sum =>
  LET each(k) == Data(D, [c EXCEPT !.skip = <<>>, !.keep = <<D.labels[k]>>], V, <<>>)
      u == Used(D, c)
  IN Data(D, c, V, <<>>).v = [q \in 1..16 |-> FoldLeft(LAMBDA a, k : Add(a, each(k).v[q]), <<0, 1>>, u)]
==============================================================================
