------------------------------- MODULE GridTask -------------------------------
(* The results of a process: groups of signals on one common grid, and what the
   tasks that work on such results (crop, replace, expression/copy, minlog) turn
   them into.

   A grid: [axes |-> <<[name, values]>>, groups |-> <<[name, signals |->
   <<[name, data]>>]>>].  Names are sequences of characters, data the values in
   C order.  A value is a fraction <<n, d>>, or Nan. *)
EXTENDS NdIndex
Nan == <<0, 0>>
Same(x, y) == IF x = Nan \/ y = Nan THEN x = y ELSE x[1] * y[2] = y[1] * x[2]
RECURSIVE Gcd(_, _)
Abs1(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm2(n, d) == LET g == Gcd(Abs1(n), Abs1(d)) IN IF n = 0 THEN <<0, 1>> ELSE <<(n * (IF d < 0 THEN -1 ELSE 1)) \div g, Abs1(d) \div g>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN <<1, 1>> ELSE LET y == Pow(x, k - 1) IN Norm2(x[1] * y[1], x[2] * y[2])
Arith(op, x, y) ==
  IF x = Nan \/ y = Nan THEN Nan
  ELSE CASE op = "+" -> Norm2(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
         [] op = "-" -> Norm2(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
         [] op = "*" -> Norm2(x[1] * y[1], x[2] * y[2])
         [] op = "/" -> Norm2(x[1] * y[2], x[2] * y[1])
         [] op = "^" -> Pow(x, y[1])

Shape(g) == [k \in DOMAIN g.axes |-> Len(g.axes[k].values)]
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Suffix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
(* a pattern selects the signals whose name (or group name) starts with it, or
   is it *)
Matches(pat, grp, sig) ==
  LET n == IF pat.on = "group" THEN grp ELSE sig IN
  IF pat.whole THEN n = pat.p ELSE Prefix(pat.p, n)
MatchesAny(pats, grp, sig) == \E k \in DOMAIN pats : Matches(pats[k], grp, sig)
AllSignals(g) == FlattenSeq([a \in DOMAIN g.groups |-> [b \in DOMAIN g.groups[a].signals |-> [grp |-> g.groups[a].name, sig |-> g.groups[a].signals[b].name, data |-> g.groups[a].signals[b].data]]])
(* the reference signal of a task: the last one whose path ends with it; the
   first signal when none is given *)
Reference(g, ref) ==
  LET all == AllSignals(g) IN
  IF ref = <<>> THEN all[1]
  ELSE all[Max({k \in DOMAIN all : Suffix(ref, all[k].grp \o <<"/">> \o all[k].sig)})]
HasReference(g, ref) == ref = <<>> \/ \E k \in DOMAIN AllSignals(g) : LET s == AllSignals(g)[k] IN Suffix(ref, s.grp \o <<"/">> \o s.sig)

(* every signal that is not skipped becomes data F(group, signal, data) *)
Each(g, pats, axes, F(_, _, _)) ==
  LET sig(a) == LET G == g.groups[a] IN
        [k \in 1..Len(SelectSeq(G.signals, LAMBDA s : ~MatchesAny(pats, G.name, s.name))) |->
           LET s == SelectSeq(G.signals, LAMBDA x : ~MatchesAny(pats, G.name, x.name))[k]
           IN [name |-> s.name, data |-> F(G.name, s.name, s.data)]]
      grps == [a \in DOMAIN g.groups |-> [name |-> g.groups[a].name, signals |-> sig(a)]]
  IN [axes |-> axes, groups |-> SelectSeq(grps, LAMBDA x : x.signals # <<>>)]

(* --------------------------------------------------------------- cropping *)
Range1(r) == [t |-> "s", a |-> r[1], b |-> r[2], c |-> None]
CropTo(g, roi, pats) ==
  LET ix == [k \in DOMAIN roi |-> Range1(roi[k])]
      at == Get(ix, Shape(g), FALSE).at
      axes == [k \in DOMAIN g.axes |-> [g.axes[k] EXCEPT !.values = SubSeq(@, roi[k][1] + 1, roi[k][2])]]
  IN Each(g, pats, axes, LAMBDA gn, sn, d : [k \in DOMAIN at |-> d[at[k]]])
(* the smallest region outside of which a line across the other dimensions has
   no valid pixel (not full) or fewer valid pixels than the best line (full); a
   pixel is valid when it has the bad value nowhere along the stack *)
NanRoi(sh, data, sd, bad, full) ==
  LET pix == {p \in 0..Prod(sh) - 1 : Unravel(p, sh)[sd] = 0}
      col(p) == {p + k * Strides(sh)[sd] : k \in 0..sh[sd] - 1}
      ok == {p \in pix : \A q \in col(p) : ~Same(data[q + 1], bad)}
      count(d, v) == Cardinality({p \in ok : Unravel(p, sh)[d] = v})
      best(d) == Max({count(d, v) : v \in 0..sh[d] - 1})
      keep(d) == {v \in 0..sh[d] - 1 : IF full /\ best(d) > 0 THEN count(d, v) = best(d) ELSE count(d, v) > 0}
  IN IF ok = {} THEN <<>>
     ELSE [d \in DOMAIN sh |-> IF d = sd THEN <<0, sh[sd]>> ELSE <<Min(keep(d)), Max(keep(d)) + 1>>]
FullRoi(sh) == [d \in DOMAIN sh |-> <<0, sh[d]>>]
UserRoi(sh, sd, roi) == SubSeq(roi, 1, sd - 1) \o <<<<0, sh[sd]>>>> \o SubSeq(roi, sd, Len(roi))

(* ------------------------------------------------------------ expressions *)
(* [e |-> "self"], [e |-> "var", name], [e |-> "num", v], [e |-> "neg", x],
   [e |-> "nanone"/"nanzero"/"abs", x], [e |-> "op", op, x, y] *)
Others(g, name) == {<<a, b>> \in UNION {{<<a, b>> : b \in DOMAIN g.groups[a].signals} : a \in DOMAIN g.groups} : g.groups[a].signals[b].name = name}
DataOf(g, a, name) == LET ss == g.groups[a].signals IN ss[CHOOSE b \in DOMAIN ss : ss[b].name = name].data
(* a name that exists once in all groups means that signal, else the one of the
   same group *)
VarData(g, grp, name) ==
  LET o == Others(g, name) IN
  IF Cardinality(o) = 1 THEN LET ab == CHOOSE x \in o : TRUE IN g.groups[ab[1]].signals[ab[2]].data
  ELSE DataOf(g, CHOOSE a \in DOMAIN g.groups : g.groups[a].name = grp, name)
RECURSIVE Eval(_, _, _, _, _)
Eval(t, g, grp, d, k) ==
  CASE t.e = "self" -> d[k]
    [] t.e = "var" -> VarData(g, grp, t.name)[k]
    [] t.e = "num" -> <<t.v, 1>>
    [] t.e = "neg" -> Arith("-", <<0, 1>>, Eval(t.x, g, grp, d, k))
    [] t.e = "abs" -> LET v == Eval(t.x, g, grp, d, k) IN IF v = Nan THEN Nan ELSE <<Abs1(v[1]), v[2]>>
    [] t.e = "nanone" -> LET v == Eval(t.x, g, grp, d, k) IN IF v = Nan THEN <<1, 1>> ELSE v
    [] t.e = "nanzero" -> LET v == Eval(t.x, g, grp, d, k) IN IF v = Nan THEN <<0, 1>> ELSE v
    [] t.e = "op" -> Arith(t.op, Eval(t.x, g, grp, d, k), Eval(t.y, g, grp, d, k))

(* ------------------------------------------------------------------ tasks *)
Roi(g, o) == IF o.kind = "cropnan" THEN NanRoi(Shape(g), Reference(g, o.ref).data, o.sd, o.bad, o.full)
             ELSE UserRoi(Shape(g), o.sd, o.roi)
GStep(g, o) ==
  CASE o.kind \in {"cropnan", "croproi"} ->
         LET roi == Roi(g, o) IN CropTo(g, IF roi = <<>> THEN FullRoi(Shape(g)) ELSE roi, o.skip)
    [] o.kind = "replace" ->
         Each(g, o.skip, g.axes, LAMBDA gn, sn, d : [k \in DOMAIN d |-> IF Same(d[k], o.old) THEN o.new ELSE d[k]])
    [] o.kind = "expression" ->
         Each(g, o.skip, g.axes, LAMBDA gn, sn, d :
            IF MatchesAny(o.copy, gn, sn) THEN d ELSE [k \in DOMAIN d |-> Eval(o.expr, g, gn, d, k)])
    [] o.kind = "minlog" -> Each(g, o.skip, g.axes, LAMBDA gn, sn, d : d)
(* the order of the signals within a group is not kept *)
SameGrid(g, h) ==
  /\ g.axes = h.axes
  /\ Len(g.groups) = Len(h.groups)
  /\ \A a \in DOMAIN g.groups :
       /\ g.groups[a].name = h.groups[a].name
       /\ Len(g.groups[a].signals) = Len(h.groups[a].signals)
       /\ \A b \in DOMAIN g.groups[a].signals : \E c \in DOMAIN h.groups[a].signals :
            LET s == g.groups[a].signals[b]
                t == h.groups[a].signals[c]
            IN s.name = t.name /\ Len(s.data) = Len(t.data) /\ \A k \in DOMAIN s.data : Same(s.data[k], t.data[k])
==============================================================================
