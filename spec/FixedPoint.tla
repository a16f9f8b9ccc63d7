----------------------------- MODULE FixedPoint -----------------------------
(* Real numbers of magnitude below 2 as multiples of 2^-28, so that TLC's 32  *)
(* bit integers suffice. Every operation is accurate to a few units.          *)
EXTENDS Integers, Sequences
Half == 2^14
One == 2^28
Pi == 843314857           \* pi * 2^28, for products with numbers below 0.5
FMul(a, b) ==
  LET a1 == a \div Half  a0 == a % Half
      b1 == b \div Half  b0 == b % Half
  IN a1*b1 + (a1*b0 + a0*b1) \div Half + (a0*b0) \div One
(* Quotient of two integers, 0 <= a, 0 < b < 2^29, a/b < 4.                   *)
RECURSIVE Bits(_, _, _, _)
Bits(q, r, b, k) == IF k = 0 THEN q
                    ELSE IF 2*r >= b THEN Bits(2*q + 1, 2*r - b, b, k-1) ELSE Bits(2*q, 2*r, b, k-1)
Quot(a, b) == Bits(a \div b, a % b, b, 28)
FDiv(a, b) == IF (a < 0) # (b < 0) THEN -Quot(IF a < 0 THEN -a ELSE a, IF b < 0 THEN -b ELSE b)
              ELSE Quot(IF a < 0 THEN -a ELSE a, IF b < 0 THEN -b ELSE b)
(* Root of a number below 2.25, by bisection.                                 *)
RECURSIVE Root(_, _, _)
Root(s, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF FMul(m, m) <= s THEN Root(s, m, hi) ELSE Root(s, lo, m)
FSqrt(s) == Root(s, 0, 3 * (One \div 2))
(* 1 - x2/d (1 - x2/d' (1 - ...)), the form of the sine and cosine series.     *)
RECURSIVE Series(_, _, _)
Series(x2, ds, k) == IF k > Len(ds) THEN One ELSE One - FMul(x2, Series(x2, ds, k+1)) \div ds[k]
FSin(x) == FMul(x, Series(FMul(x, x), <<6, 20, 42, 72, 110, 156, 210>>, 1))
FCos(x) == Series(FMul(x, x), <<2, 12, 30, 56, 90, 132, 182, 240>>, 1)
(* Inverse functions, for magnitudes below 0.25                               *)
FAsin(x) ==
  LET x2 == FMul(x, x)  x3 == FMul(x2, x)  x5 == FMul(x3, x2)  x7 == FMul(x5, x2)  x9 == FMul(x7, x2)
      x11 == FMul(x9, x2)
  IN x + x3 \div 6 + (3*x5) \div 40 + (5*x7) \div 112 + (35*x9) \div 1152 + (63*x11) \div 2816
FAtan(x) ==
  LET x2 == FMul(x, x)  x3 == FMul(x2, x)  x5 == FMul(x3, x2)  x7 == FMul(x5, x2)  x9 == FMul(x7, x2)
      x11 == FMul(x9, x2)
  IN x - x3 \div 3 + x5 \div 5 - x7 \div 7 + x9 \div 9 - x11 \div 11
(* Radians of an angle below 80 degrees in 1e-5 degrees.                      *)
Radians(n) == FMul(FDiv(n, 18000000), Pi)
=============================================================================
