------------------------------- MODULE Align -------------------------------
(* Alignment of stacks of images by translations (spectrocrunch.align).

   A stack has n images of h x w pixels; each image has one marker, the pixel
   the kernel looks for.  A call of align() finds one shift per image, the same
   for all stacks, and gives all aligned images one frame: the frame of the
   reference, extended to what any image covers (pad), or cut down to what all
   images cover (crop), or as large as the images are.

   Coordinates are <<y, x>> counted from 0.  The change of frame of an image
   (its "cof") says where its pixels come from: the aligned image at p is the
   raw image at p + cof.  cofs and offsets are doubled because centring the
   frame can shift by half pixels. *)
EXTENDS Integers, Sequences, FiniteSets

Lowest(S) == CHOOSE a \in S : \A b \in S : a <= b
Highest(S) == CHOOSE a \in S : \A b \in S : a >= b
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Twice(p) == <<2 * p[1], 2 * p[2]>>

(* im: [n, h, w]
   c:  [pair: BOOLEAN, ref: 1..n, pad, crop, fit: BOOLEAN, nan: BOOLEAN,
        mk: Seq(<<y, x>>), roi: <<height, width>> of the part used to align]
   pair: every image on the one before it; else all on image ref
   fit:  the marker was looked for in a part of the image or in calculated data
   nan:  missing pixels are NaN *)
Size(im, d) == IF d = 1 THEN im.h ELSE im.w
First(c) == IF c.pair THEN 1 ELSE c.ref
Cof(c, i) == Sub(c.mk[i], c.mk[First(c)])
(* what image i covers in the frame of the reference, in dimension d *)
From(c, i, d) == -Cof(c, i)[d]
UnionLo(im, c, d) == Lowest({From(c, i, d) : i \in 1..im.n})
UnionHi(im, c, d) == Highest({From(c, i, d) : i \in 1..im.n}) + Size(im, d) - 1
CommonLo(im, c, d) == Highest({From(c, i, d) : i \in 1..im.n})
CommonHi(im, c, d) == Lowest({From(c, i, d) : i \in 1..im.n}) + Size(im, d) - 1
(* Pixels all images have.  What is left can be too small to be kept: one
   pixel is, unless valid pixels can be counted. *)
RoiCommon(c, d) ==
  LET F == {From(c, i, d) : i \in 1..Len(c.mk)}
  IN  Highest(F) <= Lowest(F) + c.roi[d] - 1
Counted(c) == ~c.pair /\ c.nan /\ RoiCommon(c, 1) /\ RoiCommon(c, 2)
Stretch(im, c) ==
  LET e(d) == CommonHi(im, c, d) - CommonLo(im, c, d)
  IN  e(1) >= 0 /\ e(2) >= 0 /\ (e(1) > 0 \/ e(2) > 0)
CropPossible(im, c) == Counted(c) \/ Stretch(im, c)

Mode(im, c) == IF c.pad THEN "pad"
               ELSE IF c.crop THEN (IF CropPossible(im, c) THEN "crop" ELSE "same")
               ELSE IF c.fit THEN "centre" ELSE "same"
Lo(im, c, d) == CASE Mode(im, c) = "pad" -> UnionLo(im, c, d)
                  [] Mode(im, c) = "crop" -> CommonLo(im, c, d)
                  [] OTHER -> 0
Hi(im, c, d) == CASE Mode(im, c) = "pad" -> UnionHi(im, c, d)
                  [] Mode(im, c) = "crop" -> CommonHi(im, c, d)
                  [] OTHER -> Size(im, d) - 1
(* doubled shift of all images that brings the middle of what they cover to
   the middle of the frame *)
Centre(im, c, d) ==
  IF Mode(im, c) = "centre" THEN UnionLo(im, c, d) + UnionHi(im, c, d) - (Size(im, d) - 1) ELSE 0
Cof2(im, c, i) == Add(Twice(Cof(c, i)), <<Centre(im, c, 1), Centre(im, c, 2)>>)
Shape(im, c) == <<Hi(im, c, 1) - Lo(im, c, 1) + 1, Hi(im, c, 2) - Lo(im, c, 2) + 1>>
(* pixel p of an aligned image i is at p + Off2/2 of the raw image *)
Off2(im, c, i) == Add(Cof2(im, c, i), Twice(<<Lo(im, c, 1), Lo(im, c, 2)>>))
Seen(im, c, i, d, p) == LET q == 2 * p + Off2(im, c, i)[d] IN q >= 0 /\ q <= 2 * (Size(im, d) - 1)
Blank(im, c, i) == \E d \in {1, 2} : \A p \in 0..(Shape(im, c)[d] - 1) : ~Seen(im, c, i, d, p)

(* an axis goes with the frame: cut, or continued with its outer steps *)
AxisValue(ax, k) ==
  LET m == Len(ax) IN
  CASE k < 0 -> ax[1] + k * (ax[2] - ax[1])
    [] k >= m -> ax[m] + (k - m + 1) * (ax[m] - ax[m - 1])
    [] OTHER -> ax[k + 1]
AxisOut(im, c, d, ax) == [k \in 1..Shape(im, c)[d] |-> AxisValue(ax, Lo(im, c, d) + k - 1)]

Result(im, c) ==
  [cof |-> [i \in 1..im.n |-> Cof2(im, c, i)],
   shape |-> Shape(im, c),
   off |-> [i \in 1..im.n |-> IF Blank(im, c, i) THEN <<>> ELSE Off2(im, c, i)]]
(* Where results go: used is the sequence of the image shapes of the results
   which are there; the number of the place to write to.  Results are kept
   unless they may be overwritten. *)
Place(dest, over, used, shape) ==
  CASE dest = "array" -> 0
    [] ~over -> Len(used)
    [] dest = "edf" -> 0
    [] used = <<>> -> 0
    [] used[1] = shape -> 0
    [] OTHER -> Len(used)
(* The shifts do not depend on calls made before; applying them again gives
   the same images *)
AlignStep(im, last, ev) == IF ev.op = "redo" THEN last ELSE Result(im, ev)
=============================================================================
