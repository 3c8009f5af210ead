------------------------------ MODULE AlignMC ------------------------------
EXTENDS Align, TLC
CONSTANT Sizes
AllSizes == {<<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 3>>, <<2, 1>>}
QuickSizes == {<<2, 3>>, <<1, 3>>, <<2, 1>>}
VARIABLES im, mk, last, call
vars == <<im, mk, last, call>>
Pixels(h, w) == {<<y, x>> : y \in 0..(h - 1), x \in 0..(w - 1)}
Init == \E n \in 1..3, s \in Sizes :
          /\ n = 3 => s[1] * s[2] <= 6
          /\ im = [n |-> n, h |-> s[1], w |-> s[2]]
          /\ mk \in [1..n -> Pixels(s[1], s[2])]
          /\ last = <<>> /\ call = <<>>
Align1 == \E pair \in BOOLEAN, r \in 1..im.n, mode \in {"pad", "crop", "both", "none"}, fit, nan \in BOOLEAN, cut \in {0, 1} :
            LET c == [op |-> "align", pair |-> pair, ref |-> r, pad |-> mode \in {"pad", "both"}, crop |-> mode \in {"crop", "both"},
                      fit |-> fit, nan |-> nan, mk |-> mk,
                      roi |-> <<Highest({1, im.h - cut}), Highest({1, im.w - cut})>>]
            IN  /\ pair => r = 1
                (* these only matter without padding *)
                /\ mode # "none" => ~fit
                /\ mode # "crop" => ~nan /\ cut = 0
                /\ call' = c
                /\ last' = AlignStep(im, last, c)
                /\ UNCHANGED <<im, mk>>
Redo == /\ call # <<>>
        /\ last' = AlignStep(im, last, [op |-> "redo"])
        /\ UNCHANGED <<im, mk, call>>
Next == (call = <<>> /\ Align1) \/ Redo
Spec == Init /\ [][Next]_vars

Is(m) == call # <<>> /\ Mode(im, call) = m
Out == {<<y, x>> : y \in 0..(Shape(im, call)[1] - 1), x \in 0..(Shape(im, call)[2] - 1)}
Whole(i) == Off2(im, call, i)[1] % 2 = 0 /\ Off2(im, call, i)[2] % 2 = 0
Raw(i, p) == LET o == Off2(im, call, i) IN <<p[1] + o[1] \div 2, p[2] + o[2] \div 2>>
Inside(p) == p \in Pixels(im.h, im.w)
(* aligned images have the marker at the same place, whatever the frame *)
MarkersMeet == call # <<>> => \A i, j \in 1..im.n :
                 (* doubled position of the marker of i in the frame *)
                 Sub(Twice(mk[i]), Off2(im, call, i)) = Sub(Twice(mk[j]), Off2(im, call, j))
(* padding loses no pixel, and adds no line without one *)
PadKeeps == Is("pad") =>
  /\ \A i \in 1..im.n : Whole(i) /\ \A q \in Pixels(im.h, im.w) : \E p \in Out : Raw(i, p) = q
  /\ \A y \in {p[1] : p \in Out} : \E i \in 1..im.n, p \in Out : p[1] = y /\ Inside(Raw(i, p))
  /\ \A x \in {p[2] : p \in Out} : \E i \in 1..im.n, p \in Out : p[2] = x /\ Inside(Raw(i, p))
(* cropping leaves no missing pixel, and takes no pixel all images have *)
CropClean == Is("crop") =>
  /\ \A i \in 1..im.n : Whole(i) /\ \A p \in Out : Inside(Raw(i, p))
  /\ \A p \in {<<y, x>> : y \in -im.h..(2 * im.h), x \in -im.w..(2 * im.w)} :
       (\A i \in 1..im.n : Inside(Raw(i, p))) => p \in Out
(* cropping is given up only when hardly anything is left *)
CropSkipped == (call # <<>> /\ call.crop /\ ~call.pad /\ Mode(im, call) = "same") =>
  \/ \E d \in {1, 2} : CommonHi(im, call, d) - CommonLo(im, call, d) < 0
  \/ \A d \in {1, 2} : CommonHi(im, call, d) = CommonLo(im, call, d)
(* a single image or aligned images stay as they are *)
Still == (call # <<>> /\ \A i \in 1..im.n : mk[i] = mk[1]) =>
  /\ Shape(im, call) = <<im.h, im.w>> /\ \A i \in 1..im.n : Off2(im, call, i) = <<0, 0>>
(* no pixel is invented: each comes from one place of its image, or is missing *)
SameSize == (Is("same") \/ Is("centre")) => Shape(im, call) = <<im.h, im.w>>
(* the centred frame misses as much on one side as on the other *)
Centred == Is("centre") => \A d \in {1, 2} :
  LET before == {-Cof2(im, call, i)[d] : i \in 1..im.n}
      after == {-Cof2(im, call, i)[d] + 2 * Size(im, d) - 2 : i \in 1..im.n}
  IN  Lowest(before) + Highest(after) = 2 * Size(im, d) - 2
(* the axis values of pixels that stay do not change *)
AxesFollow == call # <<>> => \A d \in {1, 2} : Size(im, d) > 1 =>
  LET ax == [k \in 1..Size(im, d) |-> k * k] IN
  \A k \in 0..(Size(im, d) - 1) : k \in Lo(im, call, d)..Hi(im, call, d) =>
     AxisOut(im, call, d, ax)[k - Lo(im, call, d) + 1] = ax[k + 1]
RedoSame == [][call # <<>> => last' = last]_vars
=============================================================================
