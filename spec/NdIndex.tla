------------------------------- MODULE NdIndex -------------------------------
(* Arrays of any number of dimensions, and what indexing them means.

   An index is a sequence of items
     [t |-> "i", v]         one position (negative: from the end)
     [t |-> "s", a, b, c]   start, stop, step (None = not given)
     [t |-> "l", v]         a list of positions
     [t |-> "b", v]         a list of booleans, one per position
     [t |-> "e"]            Ellipsis (at most once)
     [t |-> "n"]            a new dimension
   applied to an array of shape sh.  An array is the sequence of its values in
   C order (last dimension fastest).  The result is its shape and, for every
   element of the result in C order, the position (1..) in the array it comes
   from. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
None == 99
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SubSeqWhere(s, P(_)) == SelectSeq(s, P)

(* ---- C order ---- *)
Strides(sh) == [k \in DOMAIN sh |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
(* multi-index (0-based) of position p (0-based) *)
Unravel(p, sh) == LET st == Strides(sh) IN [k \in DOMAIN sh |-> (p \div st[k]) % sh[k]]
Ravel(mi, sh) == LET st == Strides(sh) IN FoldLeft(LAMBDA a, k : a + mi[k] * st[k], 0, [k \in DOMAIN sh |-> k])

(* ---- one dimension ---- *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SliceList(it, n) ==
  LET c == IF it.c = None THEN 1 ELSE it.c
      norm(x) == IF x < 0 THEN x + n ELSE x
      lo == IF c > 0 THEN 0 ELSE -1
      hi == IF c > 0 THEN n ELSE n - 1
      clip(x) == Max2(lo, Min2(hi, norm(x)))
      a == IF it.a = None THEN (IF c > 0 THEN 0 ELSE n - 1) ELSE clip(it.a)
      b == IF it.b = None THEN (IF c > 0 THEN n ELSE -1) ELSE clip(it.b)
      len == IF c > 0 THEN Max2(0, (b - a + c - 1) \div c) ELSE Max2(0, (a - b + (-c) - 1) \div (-c))
  IN [k \in 1..len |-> a + (k - 1) * c]
BoolList(v) == SelectSeq([k \in DOMAIN v |-> k - 1], LAMBDA k : v[k + 1])
Norm(v, n) == [k \in DOMAIN v |-> IF v[k] < 0 THEN v[k] + n ELSE v[k]]
InRange(v, n) == \A k \in DOMAIN v : v[k] >= -n /\ v[k] < n

(* ---- the whole index ---- *)
Uses(it) == it.t \notin {"n", "e"}
NUsed(ix) == Len(SelectSeq(ix, Uses))
Full == [t |-> "s", a |-> None, b |-> None, c |-> None]
Pad(k) == [j \in 1..k |-> Full]
(* Ellipsis replaced, one item per dimension (new dimensions extra) *)
Expand(ix, nd) ==
  LET at == SelectInSeq(ix, LAMBDA it : it.t = "e")
      k == nd - NUsed(ix)
  IN IF at = 0 THEN ix \o Pad(k)
     ELSE SubSeq(ix, 1, at - 1) \o Pad(k) \o SubSeq(ix, at + 1, Len(ix))
(* number of the dimension an item of the expanded index applies to *)
DimOf(ex, k) == NUsed(SubSeq(ex, 1, k))
IsList(it) == it.t \in {"l", "b"}
ListOf(it, n) == IF it.t = "b" THEN BoolList(it.v) ELSE Norm(it.v, n)
HasList(ex) == \E k \in DOMAIN ex : IsList(ex[k])
(* single positions count as lists of one as soon as there is a list *)
IsAdv(ex, k) == IsList(ex[k]) \/ (ex[k].t = "i" /\ HasList(ex))
Valid(ix, sh) ==
  /\ NUsed(ix) <= Len(sh)
  /\ LET ex == Expand(ix, Len(sh)) IN
     /\ \A k \in DOMAIN ex : Uses(ex[k]) =>
          LET n == sh[DimOf(ex, k)] IN
          CASE ex[k].t = "i" -> InRange(<<ex[k].v>>, n)
            [] ex[k].t = "l" -> InRange(ex[k].v, n)
            [] ex[k].t = "b" -> Len(ex[k].v) = n
            [] OTHER -> TRUE
     /\ LET lens == {Len(ListOf(ex[k], sh[DimOf(ex, k)])) : k \in {j \in DOMAIN ex : IsList(ex[j])}}
        IN Cardinality(lens \ {1}) <= 1
(* lists of different lengths (one of them of length 1) are repeated *)
Broadcast(ix, sh) ==
  LET ex == Expand(ix, Len(sh))
      lens == {Len(ListOf(ex[k], sh[DimOf(ex, k)])) : k \in {j \in DOMAIN ex : IsList(ex[j])}}
  IN Cardinality(lens) > 1

(* the dimensions of the result: "adv" for the lists together, else the item *)
Get(ix, sh, apart) ==
  LET ex == Expand(ix, Len(sh))
      items == [k \in DOMAIN ex |-> k]
      adv == SelectSeq(items, LAMBDA k : IsAdv(ex, k))
      lists == [k \in DOMAIN ex |->
                 IF ex[k].t = "n" THEN <<0>>
                 ELSE IF ex[k].t = "i" THEN Norm(<<ex[k].v>>, sh[DimOf(ex, k)])
                 ELSE IF ex[k].t = "s" THEN SliceList(ex[k], sh[DimOf(ex, k)])
                 ELSE ListOf(ex[k], sh[DimOf(ex, k)])]
      lens == {Len(lists[k]) : k \in {j \in DOMAIN ex : IsAdv(ex, j)}}
      nadv == IF lens \ {1} = {} THEN 1 ELSE CHOOSE x \in lens \ {1} : TRUE
      kept == SelectSeq(items, LAMBDA k : ~IsAdv(ex, k) /\ ex[k].t # "i")
      together == ~apart /\ \A k \in DOMAIN adv : adv[k] = adv[1] + k - 1
      \* 0 stands for the dimension of the lists
      dims == IF ~HasList(ex) THEN kept
              ELSE IF together
                THEN SelectSeq(kept, LAMBDA k : k < adv[1]) \o <<0>> \o SelectSeq(kept, LAMBDA k : k > adv[1])
              ELSE <<0>> \o kept
      osh == [d \in DOMAIN dims |-> IF dims[d] = 0 THEN nadv ELSE Len(lists[dims[d]])]
      src(mi) ==  \* multi-index in the array of the element mi of the result
        LET used == SelectSeq(items, LAMBDA k : Uses(ex[k])) IN
        [j \in DOMAIN used |->
           LET k == used[j] IN
           IF IsAdv(ex, k)
             THEN LET m == mi[SelectInSeq(dims, LAMBDA d : d = 0)] IN lists[k][IF Len(lists[k]) = 1 THEN 1 ELSE m + 1]
           ELSE IF ex[k].t = "i" THEN lists[k][1]
           ELSE lists[k][mi[SelectInSeq(dims, LAMBDA d : d = k)] + 1]]
  IN [sh |-> osh, at |-> [p \in 1..Prod(osh) |-> Ravel(src(Unravel(p - 1, osh)), sh) + 1]]
(* an Ellipsis standing for nothing between two lists: either reading *)
Gets(ix, sh) ==
  LET at == SelectInSeq(ix, LAMBDA it : it.t = "e")
      amb == at # 0 /\ NUsed(ix) = Len(sh) /\ at > 1 /\ at < Len(ix)
  IN IF amb THEN {Get(ix, sh, FALSE), Get(ix, sh, TRUE)} ELSE {Get(ix, sh, FALSE)}
(* assigning: w is one value or the values for the elements of the result; an
   element that is addressed more than once has one of the values *)
Addressed(g, p) == {k \in DOMAIN g.at : g.at[k] = p}
AssignedOk(before, after, g, w) ==
  \A p \in DOMAIN before :
    LET ks == Addressed(g, p) IN
    IF ks = {} THEN after[p] = before[p]
    ELSE after[p] \in (IF Len(w) = 1 THEN {w[1]} ELSE {w[k] : k \in ks})
==============================================================================
