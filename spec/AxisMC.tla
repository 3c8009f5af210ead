------------------------------- MODULE AxisMC -------------------------------
EXTENDS Axis, FiniteSets, TLC
VARIABLES a, res
vars == <<a, res>>
Q == {<<-1, 1>>, <<0, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<9, 2>>, <<7, 1>>}
V == {R(0), R(1), R(2), R(3), R(5)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : RLeq(x, y) IN <<x>> \o Sorted(S \ {x})
Lists == {Sorted(S) : S \in {T \in SUBSET V : Cardinality(T) >= 2}}
Starts ==
  {[kind |-> "list", vals |-> l, unit |-> "mm", par |-> [n |-> 0]] : l \in Lists \cup {Rev(x) : x \in Lists}}
  \cup {LET p == [start |-> s, end |-> e, n |-> n] IN [kind |-> "regular", vals |-> Values("regular", p), unit |-> "mm", par |-> p] : s \in {R(0), R(2)}, e \in {R(1), R(5)}, n \in 1..3}
  \cup {LET p == [start |-> s, step |-> e, n |-> n] IN [kind |-> "inc", vals |-> Values("inc", p), unit |-> "mm", par |-> p] : s \in {R(0), R(2)}, e \in {<<1, 2>>, R(-1)}, n \in 1..3}
  \cup {LET p == [limits |-> l, ns |-> ns] IN [kind |-> "segments", vals |-> Values("segments", p), unit |-> "mm", par |-> p] : l \in {<<R(0), R(1), R(5)>>}, ns \in {<<1, 1>>, <<1, 2>>, <<2, 4>>}}
Ops ==
  {[op |-> "newlimits", a |-> x, b |-> y] : x, y \in Q} \cup {[op |-> "newstart", a |-> x] : x \in Q} \cup {[op |-> "newend", b |-> x] : x \in Q}
  \cup {[op |-> "locate", xs |-> <<x>>] : x \in Q}
Sets == {[op |-> "set", what |-> w, x |-> x] : w \in {"start", "end", "step"}, x \in {R(-1), R(7)}} \cup {[op |-> "set", what |-> w, n |-> n] : w \in {"size", "nsteps"}, n \in 2..3}
Fits(k, w) == CASE k = "regular" -> w \in {"start", "end", "size", "nsteps"}
                [] k = "inc" -> w \in {"start", "step", "size", "nsteps"}
                [] OTHER -> FALSE
Flat == a.vals[1] = a.vals[Len(a.vals)]
Init == a \in Starts /\ res = [op |-> "none"]
Next ==
  \/ /\ res.op = "none" /\ \E o \in Ops : (o.op = "locate" \/ ~Flat) /\ res' = [op |-> o.op, o |-> o, r |-> Answer(a, o)]
     /\ UNCHANGED a
  \/ /\ res.op = "none" /\ \E o \in Sets : /\ Fits(a.kind, o.what)
                     /\ a' = [a EXCEPT !.vals = After(a, o), !.par = NewPar(a, o)]
                     /\ res' = [op |-> "set", o |-> o, before |-> a]
  \/ res.op = "set" /\ res' = [op |-> "none"] /\ UNCHANGED a /\ TLCGet("level") < 6
Spec == Init /\ [][Next]_vars
Up == RSign(RSub(a.vals[2], a.vals[1])) > 0
Before(x, y) == IF Up THEN RLess(x, y) ELSE RLess(y, x)
Monotone(v) == \A k \in 1..(Len(v) - 1) : Before(v[k], v[k + 1])
IsNew == res.op \in {"newstart", "newend", "newlimits"} /\ Len(res.r.vals) > 0
(* the limits are within the new axis *)
Included == (IsNew /\ ~Flat) =>
  LET v == res.r.vals IN
  /\ res.op \in {"newstart", "newlimits"} => ~Before(res.o.a, v[1])
  /\ res.op = "newend" => ~Before(v[Len(v)], res.o.b)
  /\ (res.op = "newlimits" /\ ~Before(res.o.b, res.o.a)) => ~Before(v[Len(v)], res.o.b)
(* values between the limits stay, and nothing is added between them *)
Kept == (res.op = "newlimits" /\ ~Flat) =>
  LET v == res.r.vals
      In(x) == ~Before(x, res.o.a) /\ ~Before(res.o.b, x)
  IN  /\ \A k \in 1..Len(a.vals) : In(a.vals[k]) => \E j \in 1..Len(v) : v[j] = a.vals[k]
      /\ \A j \in 1..Len(v) : ~Before(v[j], a.vals[1]) /\ ~Before(a.vals[Len(a.vals)], v[j]) => \E k \in 1..Len(a.vals) : v[j] = a.vals[k]
(* no more than needed *)
Few == (res.op = "newstart" /\ IsNew /\ Len(res.r.vals) > 1 /\ ~Flat) => Before(res.o.a, res.r.vals[2])
Ordered == (IsNew /\ ~Flat) => Monotone(res.r.vals)
(* values given by limits: setting one leaves the others *)
SetOne == res.op = "set" =>
  LET o == res.o
      b == res.before IN
  /\ o.what = "start" => a.vals[1] = o.x /\ Len(a.vals) = Len(b.vals)
  /\ o.what = "end" => a.vals[Len(a.vals)] = o.x /\ Len(a.vals) = Len(b.vals) /\ a.vals[1] = b.vals[1]
  /\ o.what = "step" => RSub(a.vals[2], a.vals[1]) = o.x /\ a.vals[1] = b.vals[1] /\ Len(a.vals) = Len(b.vals)
  /\ o.what = "size" => Len(a.vals) = o.n /\ a.vals[1] = b.vals[1]
  /\ o.what = "nsteps" => Len(a.vals) = o.n + 1 /\ a.vals[1] = b.vals[1]
Well == a.vals # <<>> /\ (a.kind # "list" => a.vals = Values(a.kind, a.par))
=============================================================================
