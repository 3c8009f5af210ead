------------------------------ MODULE NxDefault ------------------------------
(* What is plotted by default (io/nxfs.py: mark_default, default,              *)
(* process/nxutils.py: set_default).  s = [cls : path -> NX_class or "",       *)
(* dflt : path -> relative path or <<>>, sig : data path -> Seq(name), default *)
(* signal first].  A path is a sequence of names, the root is <<>>.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Without(f, S) == [j \in DOMAIN f \ S |-> f[j]]
With(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Sel(q, x) == SelectSeq(q, LAMBDA y : y # x)
Range(q) == {q[k] : k \in DOMAIN q}
Pfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Up(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
Rel(p, q) == SubSeq(q, Len(p) + 1, Len(q))
Cls(s, p) == IF p \in DOMAIN s.cls THEN s.cls[p] ELSE ""

\* signals u < v < w and groups a1 < a2 < ... : names in alphabetic order
Order == <<"a1", "a2", "a3", "p1", "p2", "pos", "results", "u", "v", "w">>
Sorted(S) == SelectSeq(Order, LAMBDA x : x \in S)

Choose(s, d, x) == IF x \in Range(s.sig[d]) THEN [s EXCEPT !.sig[d] = <<x>> \o Sel(@, x)] ELSE s
SetDflt(s, p, r) == [s EXCEPT !.dflt = With(@, p, r)]

RECURSIVE Climb(_, _, _)
Climb(s, p, nd) ==
  IF p = <<>> THEN s
  ELSE LET q == Up(p) IN
    IF Cls(s, q) = "NXdata" THEN Climb(Choose(s, q, Name(p)), q, nd)
    ELSE IF Cls(s, p) = "NXentry" THEN Climb(SetDflt(s, q, <<Name(p)>>), q, nd)
    ELSE LET d == IF Cls(s, p) = "NXdata" THEN p ELSE nd IN
         IF Cls(s, q) # ""
         THEN Climb(IF d # <<>> THEN SetDflt(s, q, Rel(q, d)) ELSE s, q, d)
         ELSE Climb(s, q, nd)
Mark(s, p) == Climb(s, p, <<>>)

RECURSIVE Resolve(_, _, _)
Resolve(s, p, n) ==
  IF n > 9 \/ p \notin DOMAIN s.dflt \/ s.dflt[p] = <<>> THEN p ELSE Resolve(s, p \o s.dflt[p], n + 1)
Default(s) == Resolve(s, <<>>, 0)

Datas(s, p) == LET names == Sorted({Name(q) : q \in {x \in DOMAIN s.cls : Len(x) = Len(p) + 1 /\ Pfx(p, x) /\ s.cls[x] = "NXdata"}})
               IN [k \in DOMAIN names |-> p \o <<names[k]>>]
\* fold over the data groups: <<state, wanted signal, selected group>>
RECURSIVE Pick(_, _, _)
Pick(a, ds, k) ==
  IF k > Len(ds) THEN a
  ELSE LET d == ds[k] s == a[1] IN
    IF a[2] = "" THEN Pick(IF s.sig[d] = <<>> THEN a ELSE <<s, s.sig[d][1], d>>, ds, k + 1)
    ELSE IF a[2] \in Range(s.sig[d]) THEN Pick(<<Choose(s, d, a[2]), a[2], d>>, ds, k + 1)
    ELSE Pick(a, ds, k + 1)
SetDefault(s, p, x) ==
  LET a == Pick(<<s, x, <<>>>>, Datas(s, p), 1) IN
  IF a[3] # <<>> THEN Mark(a[1], a[3]) ELSE Mark(a[1], p)

Remove(s, p) ==
  LET gone == {q \in DOMAIN s.cls : Pfx(p, q)} IN
  [s EXCEPT !.cls = Without(@, gone), !.dflt = Without(@, gone), !.sig = Without(@, gone)]

DStep(s, o) ==
  CASE o.op = "mark" -> Mark(s, o.p)
    [] o.op = "pick" -> SetDefault(s, o.p, o.x)
    [] o.op = "signal" -> [s EXCEPT !.sig[o.p] = IF @ = <<>> THEN <<o.x>> ELSE <<o.x>> \o Tail(@) \o <<Head(@)>>]
    [] o.op = "choose" -> Choose(s, o.p, o.x)
    [] o.op = "remove" -> Remove(s, o.p)
    [] o.op = "make" -> [s EXCEPT !.cls = With(@, o.p, o.c), !.sig = IF o.c = "NXdata" THEN With(@, o.p, <<>>) ELSE @]
Init0 == [cls |-> (<<>> :> "NXroot"), dflt |-> [p \in {} |-> <<>>], sig |-> [p \in {} |-> <<>>]]

\* ------------------------------------------------------------ what must hold
\* marking a data group or one of its signals makes it the one to plot
Marked(s, t, o) ==
  (o.op = "mark" /\ Cls(s, o.p) = "NXdata") => Default(t) = o.p
MarkedSignal(s, t, o) ==
  (o.op = "mark" /\ Len(o.p) > 1 /\ Cls(s, Up(o.p)) = "NXdata" /\ Name(o.p) \in Range(s.sig[Up(o.p)])) =>
     Default(t) = Up(o.p) /\ t.sig[Up(o.p)][1] = Name(o.p)
\* an entry that is marked keeps its own default
MarkedEntry(s, t, o) ==
  (o.op = "mark" /\ Cls(s, o.p) = "NXentry") => Default(t) = Resolve(s, o.p, 0)
\* choosing what to plot loses no signal and makes nothing appear
NothingLost(s, t, o) ==
  o.op \in {"mark", "pick", "choose"} =>
     /\ t.cls = s.cls
     /\ \A d \in DOMAIN s.sig : Range(t.sig[d]) = Range(s.sig[d]) /\ Len(t.sig[d]) = Len(s.sig[d])
\* defaults stored in other entries stay
OtherEntries(s, t, o) ==
  o.op \in {"mark", "pick", "choose"} =>
     \A p \in DOMAIN s.dflt : p # <<>> /\ p[1] # o.p[1] => t.dflt[p] = s.dflt[p]
==============================================================================
