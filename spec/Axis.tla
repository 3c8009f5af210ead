-------------------------------- MODULE Axis --------------------------------
(* Axes (spectrocrunch.process.axis): a sequence of values with a unit, kept as
   such ("list"), as limits and steps ("regular", "inc", "segments") or as one
   number.  An axis is what its values are, in whatever unit and form:
     [kind, vals, unit, par]
   vals are exact, in the base unit; par is what the form is given by:
     regular:  [start, end, n]      inc: [start, step, n]
     segments: [limits, ns]         list, number: none *)
EXTENDS Rational

Even(start, step, n) == [k \in 1..(n + 1) |-> RAdd(start, RMul(R(k - 1), step))]
Step(start, end, n) == RDiv(RSub(end, start), R(n))
RECURSIVE Pieces(_, _)
Pieces(limits, ns) ==
  IF ns = <<>> THEN limits
  ELSE SubSeq(Even(limits[1], Step(limits[1], limits[2], ns[1]), ns[1]), 1, ns[1]) \o Pieces(Tail(limits), Tail(ns))
(* the values of a form *)
Values(kind, par) ==
  CASE kind = "regular" -> IF par.n = 0 THEN <<par.start>> ELSE Even(par.start, Step(par.start, par.end, par.n), par.n)
    [] kind = "inc" -> Even(par.start, par.step, par.n)
    [] kind = "segments" -> Pieces(par.limits, par.ns)
    [] kind = "number" -> <<par.start>>

(* pixels of a continuous scan are at the middle of what they cover; those of a
   step scan at both limits too *)
Zapscan(start, end, n) == LET p == Step(start, end, n) IN Even(RAdd(start, RDiv(p, R(2))), p, n - 1)
Ascan(start, end, n) == Even(start, Step(start, end, n), n)

(* ----------------------------------------------------- new outer limits *)
(* From the start: values are added with the first step until they reach the
   limit, or values are dropped that are not needed to reach it.  <<>> when
   the limit is a whole step or more behind the end.  (The other end: the
   same for the reversed axis.) *)
Rev(v) == [k \in 1..Len(v) |-> v[Len(v) + 1 - k]]
Reached(v, x, up) == {k \in 1..Len(v) : IF up THEN RLeq(v[k], x) ELSE RLeq(x, v[k])}
NewStart(v, x) ==
  LET m == Len(v)
      step == RSub(v[2], v[1])
      last == RSub(v[m], v[m - 1])
      up == RSign(step) > 0
      r == RDiv(RSub(v[1], x), step)
      n == RCeil(r)
      passed == Reached(v, x, up)
  IN  IF RSign(r) > 0 THEN [k \in 1..n |-> RSub(v[1], RMul(R(n + 1 - k), step))] \o v
      ELSE IF RLeq(R(1), RDiv(RSub(x, v[m]), last)) THEN <<>>
      ELSE SubSeq(v, CHOOSE k \in passed : \A j \in passed : j <= k, m)
NewEnd(v, x) == Rev(NewStart(Rev(v), x))
(* both; the step at the end does not depend on what happens at the start *)
NewLimits(v, a, b) ==
  LET w == NewStart(v, a)
      m == Len(v)
  IN  IF w = <<>> THEN <<>>
      ELSE IF Len(w) > 1 THEN NewEnd(w, b)
      ELSE (* one value left: go on with the step there was *)
           LET v2 == <<RSub(w[1], RSub(v[m], v[m - 1])), w[1]>>
               u == NewEnd(v2, b)
           IN  IF u = <<>> THEN <<>> ELSE IF Len(u) = 1 THEN <<>> ELSE Tail(u)

(* ------------------------------------------------------------- locating *)
Nearest(v, x) ==
  CHOOSE k \in 1..Len(v) :
    /\ \A j \in 1..Len(v) : RLeq(RAbs(RSub(v[k], x)), RAbs(RSub(v[j], x)))
    /\ \A j \in 1..(k - 1) : RLess(RAbs(RSub(v[k], x)), RAbs(RSub(v[j], x)))
Same(v, w, precision) ==
  Len(v) = Len(w) /\ \A k \in 1..Len(v) : RLeq(RAbs(RSub(v[k], w[k])), precision)

(* --------------------------------------------------------------- steps *)
(* what an operation gives; before: axis, o: operation *)
Refused == [refused |-> TRUE]
With(f, a, v) == [f EXCEPT ![a] = v]
NewPar(before, o) ==
  LET p == before.par IN
  CASE o.what = "start" -> With(p, "start", o.x)
    [] o.what = "end" -> With(p, "end", o.x)
    [] o.what = "step" -> With(p, "step", o.x)
    [] o.what = "size" -> With(p, "n", o.n - 1)
    [] o.what = "nsteps" -> With(p, "n", o.n)
    [] o.what = "limits" -> With(p, "limits", o.xs)
    [] o.what = "ns" -> With(p, "ns", o.ns)
(* the values there are afterwards on the axis itself *)
After(before, o) ==
  CASE o.op = "make" -> IF before.kind = "list" THEN before.vals ELSE Values(before.kind, before.par)
    [] o.op = "set" -> Values(before.kind, NewPar(before, o))
    [] o.op = "item" -> IF before.kind = "list" THEN [before.vals EXCEPT ![o.k] = o.x] ELSE before.vals
    [] OTHER -> before.vals
(* the start has the unit of the axis *)
UnitAfter(before, o) == IF o.op \in {"units", "set"} /\ "unit" \in DOMAIN o THEN o.unit ELSE before.unit
(* what is given back *)
Answer(before, o) ==
  CASE o.op \in {"simplify", "to", "copy"} -> [vals |-> before.vals]
    [] o.op = "newstart" -> [vals |-> NewStart(before.vals, o.a)]
    [] o.op = "newend" -> [vals |-> NewEnd(before.vals, o.b)]
    [] o.op = "newlimits" -> [vals |-> NewLimits(before.vals, o.a, o.b)]
    [] o.op = "locate" -> [at |-> [k \in 1..Len(o.xs) |-> Nearest(before.vals, o.xs[k])]]
    [] o.op = "same" -> [yes |-> Same(before.vals, o.other, o.precision)]
    [] o.op = "zapscan" -> [vals |-> Zapscan(o.a, o.b, o.n)]
    [] o.op = "ascan" -> [vals |-> Ascan(o.a, o.b, o.n)]
    [] OTHER -> [none |-> TRUE]
(* what an axis says of itself *)
Says(v) ==
  LET m == Len(v) IN
  [start |-> v[1], end |-> v[m], size |-> m,
   first |-> IF m > 1 THEN RSub(v[2], v[1]) ELSE R(0),
   last |-> IF m > 1 THEN RSub(v[m], v[m - 1]) ELSE R(0)]
=============================================================================
