---------------------------- MODULE CornerTables ----------------------------
(* Footprints from tables of corner offsets (glmtools.io.ccd).  A table has   *)
(* nodes [at, off]: the position of a pixel and its offsets, corner by corner; *)
(* at is a matrix of positions on lines of constant coordinates.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rows(t) == 1..Len(t)
Cols(t) == 1..Len(t[1])
Nodes(t) == Rows(t) \X Cols(t)
At(t, n) == t[n[1]][n[2]].at
Off(t, n) == t[n[1]][n[2]].off
Sq(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
Nearest(t, v) == {n \in Nodes(t) : \A m \in Nodes(t) : Sq(At(t, n), v) <= Sq(At(t, m), v)}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
Between(a, x, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
Inside(t, v) == \A k \in 1..2 : LET S == {At(t, n)[k] : n \in Nodes(t)} IN Least(S) < v[k] /\ v[k] < Most(S)
Outside(t, v) == \E k \in 1..2 : LET S == {At(t, n)[k] : n \in Nodes(t)} IN v[k] < Least(S) \/ v[k] > Most(S)
(* Nodes at the corners of the cell (named by its first node) around v.        *)
CellNodes(n) == {<<n[1]+a, n[2]+b>> : <<a, b>> \in {0, 1} \X {0, 1}}
CellsAround(t, v) == {n \in Nodes(t) : /\ n[1] < Len(t) /\ n[2] < Len(t[1])
                                       /\ \A k \in 1..2 : Between(At(t, n)[k], v[k], At(t, <<n[1]+1, n[2]+1>>)[k])}
(* An interpolated offset lies within those of the surrounding nodes, and is   *)
(* that of the node at the node.                                               *)
Around(t, v) == LET here == {n \in Nodes(t) : At(t, n) = v}
                IN IF here # {} THEN here ELSE UNION {CellNodes(c) : c \in CellsAround(t, v)}
InEnvelope(t, v, c, k, x, s) ==       \* x in units of 1/s
  LET S == {Off(t, n)[c][k] : n \in Around(t, v)} IN s*Least(S) <= x /\ x <= s*Most(S)
(* A table is affine if its offsets grow evenly with the position.             *)
AffineOff(f, v) == f[1] + f[2]*v[1] + f[3]*v[2]
IsAffine(t, f, c, k) == \A n \in Nodes(t) : Off(t, n)[c][k] = AffineOff(f, At(t, n))

(* Walking over a table: where, and the interpolants of the triangles there.   *)
VARIABLES table, where
cvars == <<table, where>>
(* Twice the area of a triangle times the interpolated value, for v inside.    *)
X2(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
InTri(a, b, c, v) == LET p == X2(a, b, v)  q == X2(b, c, v)  r == X2(c, a, v)
                     IN (p >= 0 /\ q >= 0 /\ r >= 0) \/ (p <= 0 /\ q <= 0 /\ r <= 0)
TriNodes(c) == {<<n, m, o>> \in CellNodes(c) \X CellNodes(c) \X CellNodes(c) : Cardinality({n, m, o}) = 3}
TriValue(t, tri, v, c, k) ==
  LET a == At(t, tri[1])  b == At(t, tri[2])  d == At(t, tri[3])
  IN [num |-> X2(b, d, v)*Off(t, tri[1])[c][k] + X2(d, a, v)*Off(t, tri[2])[c][k] + X2(a, b, v)*Off(t, tri[3])[c][k],
      den |-> X2(a, b, d)]
Move == \E v \in {<<where[1]+1, where[2]>>, <<where[1], where[2]+1>>} : where' = v /\ UNCHANGED table
=============================================================================
