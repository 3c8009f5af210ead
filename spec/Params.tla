------------------------------- MODULE Params -------------------------------
(* The parameter tree of pipelines/parameters.py: nodes with a local map,      *)
(* a parent they inherit from and an ordered list of children.                 *)
(* s = [par: node -> node or 0, kids: node -> Seq(node), dat: node -> map,     *)
(*      snap: node -> snapshot taken by the last reset, n: nodes made so far]  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nodes(s) == 1 .. s.n
RECURSIVE Up(_, _)
Up(s, x) == IF x = 0 THEN <<>> ELSE <<x>> \o Up(s, s.par[x])        \* x and its ancestors
UpSet(s, x) == {Up(s, x)[i] : i \in 1 .. Len(Up(s, x))}
Down(s, x) == {y \in Nodes(s) : x \in UpSet(s, y)}                   \* x and its descendants
\* inherited view of x: the nearest ancestor that defines the key decides
Keys(s, x) == UNION {DOMAIN s.dat[y] : y \in UpSet(s, x)}
Look(s, x, k) == LET u == Up(s, x)
                     i == CHOOSE i \in 1 .. Len(u) :
                             k \in DOMAIN s.dat[u[i]] /\ \A j \in 1 .. i - 1 : k \notin DOMAIN s.dat[u[j]]
                 IN s.dat[u[i]][k]
Full(s, x) == [k \in Keys(s, x) |-> Look(s, x, k)]
Chain(s, x) == [i \in 1 .. Len(Up(s, x)) |-> s.dat[Up(s, x)[i]]]
Changed(s, x) == s.snap[x] # <<"at", Chain(s, x)>>

Empty == [k \in {} |-> 0]
New(s, parent) ==
  LET x == s.n + 1 IN
  [par |-> Append(s.par, parent),
   kids |-> Append(IF parent = 0 THEN s.kids ELSE [s.kids EXCEPT ![parent] = Append(@, x)], <<>>),
   dat |-> Append(s.dat, Empty), snap |-> Append(s.snap, <<"never">>), n |-> x]

NewParent(s, x, m) ==
  LET s1 == IF s.par[x] = 0 THEN s
            ELSE [s EXCEPT !.kids[s.par[x]] = SelectSeq(@, LAMBDA y : y # x)]
      s2 == [s1 EXCEPT !.par[x] = m]
  IN IF m = 0 THEN s2 ELSE [s2 EXCEPT !.kids[m] = Append(@, x)]

SetParent(s, x, m) ==
  IF m = x \/ m = s.par[x] THEN s
  ELSE LET s1 == IF m # 0 /\ m \in Down(s, x) THEN NewParent(s, m, s.par[x]) ELSE s
       IN NewParent(s1, x, m)

RECURSIVE Adopt(_, _, _)
Adopt(s, lst, m) == IF lst = <<>> THEN s ELSE Adopt(SetParent(s, Head(lst), m), Tail(lst), m)

\* take x out; single: its children go to its parent (a new one when x is a root)
Remove(s, x, single) ==
  LET s1 == IF single /\ s.par[x] = 0 THEN LET t == New(s, 0) IN SetParent(t, x, t.n) ELSE s
      s2 == IF single THEN Adopt(s1, s1.kids[x], s1.par[x]) ELSE s1
  IN SetParent(s2, x, 0)

InsertBefore(s, x, m0, single) ==
  LET s0 == IF m0 = 0 THEN New(s, 0) ELSE s
      m == IF m0 = 0 THEN s0.n ELSE m0
  IN IF m = s0.par[x] \/ m = x THEN s0
     ELSE LET s1 == IF single THEN Remove(s0, m, TRUE) ELSE s0
              keep == s1.par[x]
              s2 == SetParent(s1, x, m)
          IN IF s2.par[m] = 0 THEN SetParent(s2, m, keep) ELSE s2

InsertAfter(s, x, m0, single) ==
  LET s0 == IF m0 = 0 THEN New(s, 0) ELSE s
      m == IF m0 = 0 THEN s0.n ELSE m0
  IN IF s0.par[m] = x \/ m = x THEN s0
     ELSE LET s1 == IF single THEN Remove(s0, m, TRUE) ELSE s0
              s2 == Adopt(s1, s1.kids[x], m)
          IN SetParent(s2, m, x)

Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
With(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]

Set(s, x, k, v) == IF k \in Keys(s, x) /\ Look(s, x, k) = v THEN s
                   ELSE [s EXCEPT !.dat[x] = With(@, k, v)]
DelIn(s, S, k) == [s EXCEPT !.dat = [y \in Nodes(s) |-> IF y \in S THEN Without(s.dat[y], k) ELSE s.dat[y]]]
Reset(s, S) == [s EXCEPT !.snap = [y \in Nodes(s) |-> IF y \in S THEN <<"at", Chain(s, y)>> ELSE s.snap[y]]]
\* set locally and drop the overrides of all descendants
UpdateRec(s, x, k, v) == LET t == Set(s, x, k, v) IN DelIn(t, Down(t, x) \ {x}, k)

PStep(s, o) ==
  CASE o.op = "set" -> Set(s, o.x, o.k, o.v)
    [] o.op = "del" -> DelIn(s, Down(s, o.x), o.k)
    [] o.op = "dellocal" -> DelIn(s, {o.x}, o.k)
    [] o.op = "delsub" -> DelIn(DelIn(s, Down(s, o.x), "n.u"), Down(s, o.x), "n.v")
    [] o.op = "updaterec" -> UpdateRec(s, o.x, o.k, o.v)
    [] o.op = "branch" -> New(s, o.x)
    [] o.op = "parent" -> SetParent(s, o.x, o.m)
    [] o.op = "before" -> InsertBefore(s, o.x, o.m, o.single)
    [] o.op = "after" -> InsertAfter(s, o.x, o.m, o.single)
    [] o.op = "remove" -> Remove(s, o.x, o.single)
    [] o.op = "reset" -> Reset(s, IF o.rec THEN Down(s, o.x) ELSE {o.x})

\* what a user sees of the whole forest
Show(s) == [x \in Nodes(s) |->
             [par |-> s.par[x], kids |-> s.kids[x], local |-> s.dat[x], full |-> Full(s, x),
              changed |-> Changed(s, x), root |-> Up(s, x)[Len(Up(s, x))]]]

(* ------------------------------- invariants ------------------------------ *)
Forest(s) ==
  /\ \A x \in Nodes(s) : s.par[x] \in 0 .. s.n
  /\ \A x, y \in Nodes(s) :
        Cardinality({i \in 1 .. Len(s.kids[y]) : s.kids[y][i] = x}) = IF s.par[x] = y THEN 1 ELSE 0
  /\ \A x \in Nodes(s) : Len(Up(s, x)) <= s.n
=============================================================================
