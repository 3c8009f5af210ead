------------------------------ MODULE Rational ------------------------------
(* exact fractions <<n, d>>, d > 0, in lowest terms *)
EXTENDS Integers, Sequences
RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
RAbs1(n) == IF n < 0 THEN -n ELSE n
RNorm(n, d) == IF n = 0 THEN <<0, 1>>
               ELSE LET g == RGcd(RAbs1(n), RAbs1(d))
                        s == IF d < 0 THEN -1 ELSE 1
                    IN  <<s * (n \div g), s * (d \div g)>>
R(n) == <<n, 1>>
(* by way of the common denominator: numbers stay small *)
RAdd(a, b) == LET g == RGcd(a[2], b[2]) IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == RNorm(a[1], b[2])
                  y == RNorm(b[1], a[2])
              IN  RNorm(x[1] * y[1], x[2] * y[2])
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0
RLess(a, b) == RSign(RSub(a, b)) < 0
RLeq(a, b) == RSign(RSub(a, b)) <= 0
RAbs(a) == <<RAbs1(a[1]), a[2]>>
RFloor(a) == a[1] \div a[2]
RCeil(a) == -((-a[1]) \div a[2])
RMin2(a, b) == IF RLeq(a, b) THEN a ELSE b
RMax2(a, b) == IF RLeq(a, b) THEN b ELSE a
=============================================================================
