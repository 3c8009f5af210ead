------------------------------- MODULE NxData --------------------------------
(* NXdata groups (io/nxfs.py: _NXdata) of one process: a default signal,       *)
(* auxiliary signals in order, and axes kept in a shared positioners group.    *)
(* Groups "A", "B".  s = [sig: group -> name or "", aux: group -> Seq(name),   *)
(*   shp: group -> (name -> shape), lnk: group -> names that are links,        *)
(*   axes: group -> Seq(axis), pos: axis -> value]                             *)
(* Shapes are sequences of sizes; an axis value is <<size, variant>>.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [k \in {} |-> 0]
G == {"A", "B"}
Init0 == [sig |-> [g \in G |-> ""], aux |-> [g \in G |-> <<>>], shp |-> [g \in G |-> Empty],
          lnk |-> [g \in G |-> {}], axes |-> [g \in G |-> <<>>], pos |-> Empty]
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
With(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Sel(q, x) == SelectSeq(q, LAMBDA y : y # x)
Range(q) == {q[k] : k \in DOMAIN q}

Names(s, g) == DOMAIN s.shp[g]
Shape(s, g) == IF s.sig[g] = "" THEN <<>> ELSE s.shp[g][s.sig[g]]
AxesShape(s, g) == [k \in DOMAIN s.axes[g] |-> s.pos[s.axes[g][k]][1]]
Dims(s, g) == IF s.axes[g] # <<>> THEN AxesShape(s, g) ELSE Shape(s, g)

R(res, t) == [res |-> res, t |-> t]

AddSig(s, g, n, shape, islink) ==
  IF Dims(s, g) # <<>> /\ shape # Dims(s, g) THEN R("format", s)
  ELSE IF n \in Names(s, g) THEN R("exists", s)
  ELSE R("ok", [s EXCEPT !.sig[g] = n,
                         !.aux[g] = IF s.sig[g] = "" THEN @ ELSE Append(@, s.sig[g]),
                         !.shp[g] = With(@, n, shape),
                         !.lnk[g] = IF islink THEN @ \cup {n} ELSE @])
DefaultSig(s, g, n) ==
  IF n \notin Names(s, g) THEN R("false", s)
  ELSE IF n = s.sig[g] THEN R("true", s)
  ELSE R("true", [s EXCEPT !.sig[g] = n, !.aux[g] = Sel(<<s.sig[g]>> \o @, n)])
RemoveSig(s, g, n) ==
  LET t == [s EXCEPT !.shp[g] = Without(@, n), !.lnk[g] = @ \ {n}] IN
  IF n # s.sig[g] THEN R("ok", [t EXCEPT !.aux[g] = Sel(@, n)])
  ELSE IF s.aux[g] = <<>> THEN R("ok", [t EXCEPT !.sig[g] = ""])
  ELSE R("ok", [t EXCEPT !.sig[g] = s.aux[g][Len(s.aux[g])], !.aux[g] = SubSeq(@, 1, Len(@) - 1)])

Order == <<"u", "v", "w">>                   \* alphabetic order of the names
Sorted(S) == SelectSeq(Order, LAMBDA x : x \in S)
Listed(s, g) == IF s.sig[g] = "" THEN <<>> ELSE <<s.sig[g]>> \o s.aux[g]
SortSig(s, g, other) ==
  LET lst == IF other = "" \/ other = g THEN Sorted(Names(s, g)) ELSE Listed(s, other)
  IN IF Names(s, g) = {} THEN R("ok", s)
     ELSE IF other # "" /\ Names(s, other) # Names(s, g) THEN R("ok", s)
     ELSE IF other = g THEN R("ok", s)
     ELSE R("ok", [s EXCEPT !.sig[g] = lst[1], !.aux[g] = Tail(lst)])

\* axs: Seq of [n: axis, v: value or <<>>]
SizeOf(s, a) == IF a.v # <<>> THEN a.v[1] ELSE IF a.n \in DOMAIN s.pos THEN s.pos[a.n][1] ELSE -1
RECURSIVE AddAxes(_, _)
AddAxes(s, axs) ==
  IF axs = <<>> THEN R("ok", s)
  ELSE LET a == Head(axs) IN
       IF a.n \in DOMAIN s.pos
       THEN IF a.v # <<>> /\ a.v # s.pos[a.n] THEN R("value", s) ELSE AddAxes(s, Tail(axs))
       ELSE IF a.v = <<>> THEN R("value", s)
       ELSE AddAxes([s EXCEPT !.pos = With(@, a.n, a.v)], Tail(axs))
SetAxes(s, g, axs) ==
  LET sizes == [k \in DOMAIN axs |-> SizeOf(s, axs[k])] IN
  IF Shape(s, g) # <<>> /\ sizes # Shape(s, g) THEN R("format", s)
  ELSE LET r == AddAxes(s, axs)
       IN IF r.res # "ok" THEN r
          ELSE R("ok", [r.t EXCEPT !.axes[g] = [k \in DOMAIN axs |-> axs[k].n]])

NStep(s, o) ==
  CASE o.op = "add" -> AddSig(s, o.g, o.n, o.shape, FALSE)
    [] o.op = "link" -> AddSig(s, o.g, o.n, s.shp[o.from][o.n], TRUE)
    [] o.op = "default" -> DefaultSig(s, o.g, o.n)
    [] o.op = "remove" -> RemoveSig(s, o.g, o.n)
    [] o.op = "sort" -> SortSig(s, o.g, o.other)
    [] o.op = "axes" -> SetAxes(s, o.g, o.axs)

(* ------------------------------- invariants ------------------------------ *)
Consistent(s, g) ==
  /\ (s.sig[g] = "") = (Names(s, g) = {})
  /\ Range(Listed(s, g)) = Names(s, g) /\ Len(Listed(s, g)) = Cardinality(Names(s, g))
  /\ \A n \in Names(s, g) : s.shp[g][n] = Shape(s, g)
  /\ (s.axes[g] # <<>> /\ s.sig[g] # "") => AxesShape(s, g) = Shape(s, g)
  /\ Range(s.axes[g]) \subseteq DOMAIN s.pos
Inv0(s) == \A g \in G : Consistent(s, g)
==============================================================================
