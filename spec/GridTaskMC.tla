------------------------------ MODULE GridTaskMC ------------------------------
(* Cropping to what is valid, over every pattern of valid and bad pixels in
   small stacks of images: the region covers every valid pixel (not full) and
   is tight, the full region lies inside it, cropping twice changes nothing
   more, and cropping commutes with replacing and with expressions. *)
EXTENDS GridTask, TLC
CONSTANT N
VARIABLES d, sh, sd
One == <<1, 1>>
Two == <<2, 1>>
Ax(n) == [k \in 1..n |-> 10 * k]
Grid == [axes |-> <<[name |-> <<"s">>, values |-> Ax(sh[1])], [name |-> <<"y">>, values |-> Ax(sh[2])], [name |-> <<"x">>, values |-> Ax(sh[3])]>>,
         groups |-> <<[name |-> <<"g">>, signals |-> <<[name |-> <<"a">>, data |-> d], [name |-> <<"b">>, data |-> [k \in DOMAIN d |-> <<k, 1>>]]>>]>>]
Shapes == {s \in (1..3) \X (1..3) \X (1..3) : s[1] * s[2] * s[3] = N}
Init == d = <<>> /\ sh \in Shapes /\ sd \in 1..3
Next == Len(d) < N /\ UNCHANGED <<sh, sd>> /\ \E v \in {One, Two, Nan} : d' = Append(d, v)
Spec == Init /\ [][Next]_<<d, sh, sd>>
Ready == Len(d) = N
O(full) == [kind |-> "cropnan", ref |-> <<"a">>, sd |-> sd, bad |-> Nan, full |-> full, skip |-> <<>>]
In(m, r) == \A k \in 1..3 : m[k] \in r[k][1]..r[k][2] - 1
GoodCol(m) == \A q \in 1..N : (\A k \in 1..3 : k # sd => Unravel(q - 1, sh)[k] = m[k]) => d[q] # Nan
Good == {q \in 1..N : GoodCol(Unravel(q - 1, sh))}
Covers == Ready => LET r == NanRoi(sh, d, sd, Nan, FALSE) IN
  IF r = <<>> THEN Good = {}
  ELSE /\ \A q \in Good : In(Unravel(q - 1, sh), r)
       /\ \A k \in 1..3 : \A v \in {r[k][1], r[k][2] - 1} : \E q \in Good : Unravel(q - 1, sh)[k] = v
Inside == Ready => LET r == NanRoi(sh, d, sd, Nan, TRUE)
                       s == NanRoi(sh, d, sd, Nan, FALSE)
                   IN (r = <<>> <=> s = <<>>) /\ (r # <<>> => \A k \in 1..3 : r[k][1] >= s[k][1] /\ r[k][2] <= s[k][2])
Idem == Ready => LET g == GStep(Grid, O(FALSE)) IN SameGrid(GStep(g, O(FALSE)), g)
Rep == [kind |-> "replace", old |-> Two, new |-> <<5, 1>>, skip |-> <<>>]
Ex == [kind |-> "expression", skip |-> <<>>, copy |-> <<>>, expr |-> [e |-> "op", op |-> "*", x |-> [e |-> "self"], y |-> [e |-> "var", name |-> <<"b">>]]]
Commute == Ready => /\ SameGrid(GStep(GStep(Grid, O(TRUE)), Rep), GStep(GStep(Grid, Rep), O(TRUE)))
                    /\ SameGrid(GStep(GStep(Grid, O(TRUE)), Ex), GStep(GStep(Grid, Ex), O(TRUE)))
==============================================================================
