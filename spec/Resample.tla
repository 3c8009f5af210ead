------------------------------ MODULE Resample ------------------------------
(* Resampling of results on measured positions (spectrocrunch.process.nxresample).
   Results: axes, a sequence of [name, scan, values] (scan: what the scan calls
   it), and groups, a sequence of [name, signals], signals a sequence of
   [name, data]; data is a sequence in C order of exact fractions, Missing when
   not a number.
   Operation: [encoders, crop, cval, degree, skip]; encoders is a sequence of
   [axis, counter, res, offset]; offset <<>> or <<x>>. *)
EXTENDS Axis, FiniteSets, TLC
Missing == <<0, 0>>

(* --------------------------------------------------------------- arrays *)
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))
Stride(sh, d) == Size(SubSeq(sh, d + 1, Len(sh)))
(* position (from 1) of the k-th number (from 1) along dimension d *)
Place(sh, k, d) == (((k - 1) \div Stride(sh, d)) % sh[d]) + 1
RECURSIVE Offset(_, _, _)
Offset(sh, p, d) == IF d > Len(sh) THEN 1 ELSE (p[d] - 1) * Stride(sh, d) + Offset(sh, p, d + 1)
Number(sh, p) == Offset(sh, p, 1)
At(data, sh, p) == data[Number(sh, p)]
Shape(axes) == [d \in 1..Len(axes) |-> Len(axes[d].values)]

(* ------------------------------------------------------------- encoders *)
AllSignals(groups) == UNION {{groups[g].signals[s] : s \in 1..Len(groups[g].signals)} : g \in 1..Len(groups)}
(* the encoder of an axis: it is asked for under the name the scan gives it and is measured *)
HasEncoder(before, o, d) ==
  \E k \in 1..Len(o.encoders) : /\ o.encoders[k].axis = before.axes[d].scan
                                /\ \E s \in AllSignals(before.groups) : s.name = o.encoders[k].counter
EncoderOf(before, o, d) == o.encoders[CHOOSE k \in 1..Len(o.encoders) : o.encoders[k].axis = before.axes[d].scan]
Measured(before, o, d) == (CHOOSE s \in AllSignals(before.groups) : s.name = EncoderOf(before, o, d).counter).data
SetMin(S) == CHOOSE x \in S : \A y \in S : RLeq(x, y)
SetMax(S) == CHOOSE x \in S : \A y \in S : RLeq(y, x)
(* what dimension d becomes: [on, position, encoder, offset, measured] *)
Grid(before, o, d) ==
  LET sh == Shape(before.axes)
      x == before.axes[d].values
      n == Len(x)
      e == EncoderOf(before, o, d)
      expected == TLCEval([k \in 1..n |-> RMul(x[k], e.res)])
      m == Measured(before, o, d)
      first == {m[k] : k \in {k \in 1..Len(m) : Place(sh, k, d) = 1}}
      last == {m[k] : k \in {k \in 1..Len(m) : Place(sh, k, d) = n}}
      up == RLess(expected[1], expected[n])
      outer(S, low) == IF low = o.crop THEN SetMax(S) ELSE SetMin(S)
      a == outer(first, up)
      b == outer(last, ~up)
      offset == IF e.offset # <<>> THEN e.offset[1]
                ELSE RSub(RDiv(RAdd(a, b), R(2)), RDiv(RAdd(expected[1], expected[n]), R(2)))
      enc == TLCEval(NewLimits(TLCEval([k \in 1..n |-> RAdd(expected[k], offset)]), a, b))
  IN  IF ~HasEncoder(before, o, d) THEN [on |-> FALSE, position |-> x, encoder |-> <<>>, offset |-> R(0), measured |-> <<>>]
      ELSE IF enc = <<>> THEN [on |-> FALSE, position |-> x, encoder |-> <<>>, offset |-> offset, measured |-> <<>>]
      ELSE [on |-> TRUE, position |-> [k \in 1..Len(enc) |-> RDiv(RSub(enc[k], offset), e.res)], encoder |-> enc, offset |-> offset, measured |-> m]

(* -------------------------------------------------------- interpolation *)
(* the numbers that may be there: one, or two where both are right *)
Line(xs, ys, x, o) ==
  LET N == 1..Len(xs)
      below == {k \in N : RLeq(xs[k], x)}
      above == {k \in N : RLeq(x, xs[k])}
      i == CHOOSE k \in below : \A j \in below : RLeq(xs[j], xs[k])
      j == CHOOSE k \in above : \A l \in above : RLeq(xs[k], xs[l])
      t == RDiv(RSub(x, xs[i]), RSub(xs[j], xs[i]))
  IN  IF below = {} \/ above = {} THEN {o.cval}
      ELSE IF xs[i] = xs[j] THEN {ys[i]}
      ELSE IF o.degree = 0 THEN (IF RLess(t, <<1, 2>>) THEN {ys[i]} ELSE IF t = <<1, 2>> THEN {ys[i], ys[j]} ELSE {ys[j]})
      ELSE {RAdd(ys[i], RMul(t, RSub(ys[j], ys[i])))}
(* two dimensions: the measured positions are a regular (sheared) grid with data
   linear in them; f(i, j): number at (i, j), e1(i, j), e2(i, j) the positions *)
Plane(n1, n2, e1(_, _), e2(_, _), f(_, _), x1, x2, o) ==
  LET u1 == RSub(e1(2, 1), e1(1, 1))  u2 == RSub(e2(2, 1), e2(1, 1))
      v1 == RSub(e1(1, 2), e1(1, 1))  v2 == RSub(e2(1, 2), e2(1, 1))
      r1 == RSub(x1, e1(1, 1))  r2 == RSub(x2, e2(1, 1))
      det == RSub(RMul(u1, v2), RMul(u2, v1))
      s == RDiv(RSub(RMul(r1, v2), RMul(r2, v1)), det)
      t == RDiv(RSub(RMul(u1, r2), RMul(u2, r1)), det)
      value == RAdd(f(1, 1), RAdd(RMul(s, RSub(f(2, 1), f(1, 1))), RMul(t, RSub(f(1, 2), f(1, 1)))))
      inside(z, n) == RSign(z) > 0 /\ RLess(z, R(n - 1))
      outside(z, n) == RSign(z) < 0 \/ RLess(R(n - 1), z)
  IN  IF inside(s, n1) /\ inside(t, n2) THEN {value}
      ELSE IF outside(s, n1) \/ outside(t, n2) THEN {o.cval}
      ELSE {value, o.cval}

(* what the number at p of a signal may be *)
Allowed(data, sh, o, grids, p) ==
  LET on == {d \in 1..Len(sh) : grids[d].on}
  IN
  IF on = {} THEN {At(data, sh, p)}
  ELSE IF Cardinality(on) = 1 THEN
    LET d == CHOOSE d \in on : TRUE
        m == grids[d].measured
    IN  Line(TLCEval([k \in 1..sh[d] |-> At(m, sh, [p EXCEPT ![d] = k])]), [k \in 1..sh[d] |-> At(data, sh, [p EXCEPT ![d] = k])], grids[d].encoder[p[d]], o)
  ELSE
    LET d1 == CHOOSE d \in on : \A e \in on : d <= e
        d2 == CHOOSE d \in on : \A e \in on : e <= d
        m1 == grids[d1].measured
        m2 == grids[d2].measured
        g(a, i, j) == At(a, sh, [p EXCEPT ![d1] = i, ![d2] = j])
        e1(i, j) == g(m1, i, j)
        e2(i, j) == g(m2, i, j)
        f(i, j) == g(data, i, j)
    IN  Plane(sh[d1], sh[d2], e1, e2, f, grids[d1].encoder[p[d1]], grids[d2].encoder[p[d2]], o)

Positions(sh, k) == TLCEval([d \in 1..Len(sh) |-> Place(sh, k, d)])
Grids(before, o) == TLCEval([d \in 1..Len(before.axes) |-> TLCEval(Grid(before, o, d))])
Skipped(o, s) == s.name \in {o.skip[k] : k \in 1..Len(o.skip)}
(* difference between what is there and what should be *)
GroupsLeft(before, o) == SelectSeq(before.groups, LAMBDA g : \E k \in 1..Len(g.signals) : ~Skipped(o, g.signals[k]))
Wrong(before, o, after) ==
  LET gr == Grids(before, o)
      sh == TLCEval([d \in 1..Len(before.axes) |-> Len(gr[d].position)])
      left == GroupsLeft(before, o)
      sh0 == TLCEval(Shape(before.axes))
  IN
  IF [d \in 1..Len(after.axes) |-> after.axes[d].name] # [d \in 1..Len(before.axes) |-> before.axes[d].name] THEN "names of axes"
  ELSE IF \E d \in 1..Len(sh) : after.axes[d].values # gr[d].position THEN "axes"
  ELSE IF after.offsets # [d \in 1..Len(sh) |-> gr[d].offset] THEN "offsets"
  ELSE IF {after.groups[k].name : k \in 1..Len(after.groups)} # {left[k].name : k \in 1..Len(left)} \/ Len(after.groups) # Len(left) THEN "groups"
  ELSE IF \E i, k \in 1..Len(left) :
         /\ left[i].name = after.groups[k].name
         /\ {s \in {left[i].signals[j].name : j \in 1..Len(left[i].signals)} : ~Skipped(o, [name |-> s])}
              # {after.groups[k].signals[j].name : j \in 1..Len(after.groups[k].signals)} THEN "signals"
  ELSE IF \E i, k \in 1..Len(left) :
         /\ left[i].name = after.groups[k].name
         /\ \E j \in 1..Len(left[i].signals), l \in 1..Len(after.groups[k].signals) :
              /\ left[i].signals[j].name = after.groups[k].signals[l].name
              /\ \/ Len(after.groups[k].signals[l].data) # Size(sh)
                 \/ \E c \in 1..Size(sh) : after.groups[k].signals[l].data[c] \notin
                        Allowed(left[i].signals[j].data, sh0, o, gr, Positions(sh, c)) THEN "values"
  ELSE ""
=============================================================================
