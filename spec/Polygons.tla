------------------------------ MODULE Polygons ------------------------------
(* Plane polygons with integer vertices. Coordinates differ by less than      *)
(* 2^15 and edges of clipping regions are shorter than 2^12, so that TLC's 32 *)
(* bit integers suffice. Areas are doubled.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
AbsP(a) == IF a < 0 THEN -a ELSE a
Cross(o, a, b) == (a[1]-o[1])*(b[2]-o[2]) - (a[2]-o[2])*(b[1]-o[1])
NextOf(p, i) == IF i = Len(p) THEN 1 ELSE i + 1
SignedArea2(p) == IF Len(p) < 3 THEN 0
                  ELSE FoldLeft(LAMBDA acc, i : acc + Cross(p[1], p[i], p[i+1]), 0, [i \in 1..Len(p)-2 |-> i+1])
Area2(p) == AbsP(SignedArea2(p))
(* The polygon with its interior on the left of its edges.                    *)
Ccw(p) == IF SignedArea2(p) < 0 THEN Reverse(p) ELSE p
MinOf(p, k) == FoldLeft(LAMBDA acc, v : IF v[k] < acc THEN v[k] ELSE acc, p[1][k], p)
MaxOf(p, k) == FoldLeft(LAMBDA acc, v : IF v[k] > acc THEN v[k] ELSE acc, p[1][k], p)
Extent(p) == [x0 |-> MinOf(p, 1), x1 |-> MaxOf(p, 1), y0 |-> MinOf(p, 2), y1 |-> MaxOf(p, 2)]
Apart(e, f) == e.x1 <= f.x0 \/ f.x1 <= e.x0 \/ e.y1 <= f.y0 \/ f.y1 <= e.y0

(* n/d in multiples of 2^-15, 0 <= n <= d < 2^30                              *)
RECURSIVE RatioBits(_, _, _, _)
RatioBits(q, r, d, k) == IF k = 0 THEN q
                         ELSE IF 2*r >= d THEN RatioBits(2*q + 1, 2*r - d, d, k-1) ELSE RatioBits(2*q, 2*r, d, k-1)
Ratio(n, d) == RatioBits(n \div d, n % d, d, 15)
Part(len, t) == (len * t + 16384) \div 32768
Meet(p, q, dp, dq) ==
  LET t == Ratio(AbsP(dp), AbsP(dp) + AbsP(dq))
  IN <<p[1] + Part(q[1]-p[1], t), p[2] + Part(q[2]-p[2], t)>>
(* The part of p to the left of the line from a to b (Sutherland, Hodgman).   *)
ClipSide(p, a, b) ==
  LET d == [i \in 1..Len(p) |-> Cross(a, b, p[i])]
      at(i) == LET j == NextOf(p, i)
               IN (IF d[i] >= 0 THEN <<p[i]>> ELSE <<>>)
                  \o (IF (d[i] >= 0) # (d[j] >= 0) THEN <<Meet(p[i], p[j], d[i], d[j])>> ELSE <<>>)
  IN FoldLeft(LAMBDA acc, i : acc \o at(i), <<>>, [i \in 1..Len(p) |-> i])
(* The part of p inside the convex polygon c.                                 *)
Clip(p, c) ==
  LET cc == Ccw(c)
  IN FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN acc ELSE ClipSide(acc, cc[i], cc[NextOf(cc, i)]),
              p, [i \in 1..Len(cc) |-> i])
Overlap2(p, c) == IF Apart(Extent(p), Extent(c)) THEN 0 ELSE Area2(Clip(p, c))
(* v is in the convex polygon p, or within about tol of it.                   *)
Within(v, p, tol) ==
  LET c == Ccw(p)
  IN \A i \in 1..Len(c) :
       LET j == NextOf(c, i)
       IN Cross(c[i], c[j], v) >= -tol * (AbsP(c[j][1]-c[i][1]) + AbsP(c[j][2]-c[i][2]))
(* v is on a side of an edge, by crossing count (any simple polygon).         *)
Crosses(v, a, b) ==
  /\ (a[2] > v[2]) # (b[2] > v[2])
  /\ IF b[2] > a[2] THEN Cross(a, b, v) > 0 ELSE Cross(a, b, v) < 0
Encloses(p, v) == Cardinality({i \in 1..Len(p) : Crosses(v, p[i], p[NextOf(p, i)])}) % 2 = 1
NearEdge(v, p, tol) ==
  \E i \in 1..Len(p) :
     LET a == p[i]  b == p[NextOf(p, i)]
         lo(k) == IF a[k] < b[k] THEN a[k] ELSE b[k]
         hi(k) == IF a[k] > b[k] THEN a[k] ELSE b[k]
     IN /\ v[1] >= lo(1) - tol /\ v[1] <= hi(1) + tol /\ v[2] >= lo(2) - tol /\ v[2] <= hi(2) + tol
        /\ AbsP(Cross(a, b, v)) <= tol * (AbsP(b[1]-a[1]) + AbsP(b[2]-a[2]) + 1)
=============================================================================
