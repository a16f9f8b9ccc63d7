----------------------------- MODULE Locations -----------------------------
(* Location identifiers of discretized positions                              *)
(* (glmtools.io.glm.discretize_2d_location). A space is [xmin, xmax, ymin,    *)
(* ymax, step], all in the same integer units.                                *)
EXTENDS Integers, Sequences, FiniteSets
CellX(s, x) == (x - s.xmin) \div s.step
CellY(s, y) == (y - s.ymin) \div s.step
SameCell(s, a, b) == CellX(s, a[1]) = CellX(s, b[1]) /\ CellY(s, a[2]) = CellY(s, b[2])
(* Cells in a row of the numbering: a position at the upper limit is in a     *)
(* cell of its own.                                                           *)
Columns(s) == (s.xmax - s.xmin) \div s.step + 1
RowsCount(s) == (s.ymax - s.ymin) \div s.step + 1
Number(s, p) == CellX(s, p[1]) + CellY(s, p[2]) * Columns(s)

VARIABLES space, seen   \* seen: the positions numbered so far
nvars == <<space, seen>>
Positions(s) == (s.xmin..s.xmax) \X (s.ymin..s.ymax)
NumberOne(p) == seen' = seen \cup {p} /\ UNCHANGED space
Injective == \A a, b \in seen : (Number(space, a) = Number(space, b)) <=> SameCell(space, a, b)
InType == \A a \in seen : Number(space, a) < Columns(space) * RowsCount(space)
=============================================================================
