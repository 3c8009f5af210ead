----------------------------- MODULE ResampleMC -----------------------------
(* laws of resampling: two dimensions of 2 x 3, each line measured with its own
   shift and stretch *)
EXTENDS Resample, TLC
CONSTANT Full
Shifts == IF ~Full THEN {R(0), R(-1), <<1, 2>>} ELSE {R(0), R(1), R(-1), <<1, 2>>, R(3)}
Data == {<<R(0), R(1), R(4), R(2), R(2), R(-3)>>, <<R(5), R(0), R(1), R(1), R(3), R(2)>>}
VARIABLES r, i
Axes == <<[name |-> "y", scan |-> "y", values |-> <<R(0), R(1)>>], [name |-> "x", scan |-> "sx", values |-> <<R(0), R(1), R(2)>>]>>
Enc(m) == [k \in 1..6 |-> LET l == Place(<<2, 3>>, k, 1) IN RAdd(R(2 * (Place(<<2, 3>>, k, 2) - 1)), IF Place(<<2, 3>>, k, 2) = 3 THEN RAdd(m[l][1], m[l][2]) ELSE m[l][1])]
Before(m, dt) == [axes |-> Axes, groups |-> <<[name |-> "g", signals |-> <<[name |-> "e", data |-> Enc(m)], [name |-> "s", data |-> dt]>>]>>]
Op(c, off, deg, name) == [encoders |-> <<[axis |-> name, counter |-> "e", res |-> R(2), offset |-> off]>>, crop |-> c, cval |-> Missing, degree |-> deg, skip |-> <<>>]
Init == r = [none |-> TRUE] /\ i = 0
Next == i = 0 /\ i' = 1 /\
  \E m1, m2 \in Shifts \X {R(0), R(1)}, dt \in (IF Full THEN Data ELSE {CHOOSE d \in Data : TRUE}), c \in BOOLEAN, off \in {<<>>, <<R(0)>>, <<R(1)>>}, deg \in {0, 1}, name \in {"sx", "x"} :
     LET b == Before(<<m1, m2>>, dt)  o == Op(c, off, deg, name) IN r' = [m |-> <<m1, m2>>, b |-> b, o |-> o, g |-> Grids(b, o)]
Spec == Init /\ [][Next]_<<r, i>>
Ok == i = 1
G == r.g
Gd == G[2]
Sh == <<2, Len(Gd.position)>>
Sig(n) == r.b.groups[1].signals[n].data
Vals(n, k) == Allowed(Sig(n), <<2, 3>>, r.o, G, Positions(Sh, k))
(* only the axis known to the scan under that name; the other one is untouched *)
Named == Ok => G[1].on = FALSE /\ G[1].position = Axes[1].values /\ (r.o.encoders[1].axis = "x" => ~Gd.on)
Grid2 == Ok => (Gd.on => Len(Gd.position) = Len(Gd.encoder) /\ \A k \in 1..Len(Gd.position) : Gd.encoder[k] = RAdd(RMul(R(2), Gd.position[k]), Gd.offset))
(* the encoder itself becomes the encoder axis *)
Self == (Ok /\ Gd.on /\ r.o.degree = 1) => \A k \in 1..Size(Sh) : Vals(1, k) \subseteq {Missing, Gd.encoder[Positions(Sh, k)[2]]}
(* nothing but what is between two numbers of the line *)
Between == (Ok /\ Gd.on) => \A k \in 1..Size(Sh) : \A v \in Vals(2, k) :
  v = Missing \/ LET p == Positions(Sh, k)
                     L == {At(Sig(2), <<2, 3>>, <<p[1], j>>) : j \in 1..3}
                 IN  RLeq(SetMin(L), v) /\ RLeq(v, SetMax(L))
(* all measured positions are covered; cropped, at most the outer ones are not measured everywhere *)
Covered == (Ok /\ Gd.on) => LET e == Gd.encoder IN
  IF ~r.o.crop THEN \A k \in 1..6 : RLeq(e[1], Sig(1)[k]) /\ RLeq(Sig(1)[k], e[Len(e)])
  ELSE \A k \in 1..Size(Sh) : (Missing \in Vals(2, k) => Positions(Sh, k)[2] \in {1, Len(e)})
(* measured where expected: nothing changes *)
Same0 == (Ok /\ Gd.on /\ r.m = <<<<R(0), R(0)>>, <<R(0), R(0)>>>> /\ r.o.encoders[1].offset \in {<<>>, <<R(0)>>}) =>
  Gd.position = Axes[2].values /\ \A k \in 1..6 : Vals(2, k) = {Sig(2)[k]}
=============================================================================
