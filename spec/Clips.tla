------------------------------- MODULE Clips -------------------------------
(* Clipping polygons by one polygon, areas of polygons, and the lines and     *)
(* cells of a mesh (glmtools.grid.clipping).                                  *)
EXTENDS Polygons, TLC
Common(p, q, v) == Encloses(p, v) /\ Encloses(q, v)
EnclosedBySome(ps, v) == \E k \in 1..Len(ps) : Encloses(ps[k], v)
AwayFrom(ps, v, tol) == \A k \in 1..Len(ps) : ~NearEdge(v, ps[k], tol)
(* The cells of a grid of the given step that polygons on its lines cover.    *)
CellsIn(p, step, n) == {c \in (0..n-1) \X (0..n-1) : Encloses(p, <<c[1]*step + step \div 2, c[2]*step + step \div 2>>)}
SumAreas2(ps) == FoldLeft(LAMBDA acc, p : acc + Area2(p), 0, ps)
(* Pieces come in the order of the polygons they are cut from.                *)
RECURSIVE Before(_, _)
Before(counts, k) == IF k = 1 THEN 0 ELSE Before(counts, k-1) + counts[k-1]
PiecesOf(pieces, counts, k) == SubSeq(pieces, Before(counts, k) + 1, Before(counts, k) + counts[k])
(* A mesh has lines of vertices along both dimensions, and cells whose        *)
(* corners go round.                                                          *)
LinesAlong(m) == m
LinesAcross(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
CellsOf(m) == [i \in 1..Len(m)-1 |-> [j \in 1..Len(m[1])-1 |-> <<m[i][j], m[i][j+1], m[i+1][j+1], m[i+1][j]>>]]
Rotated(p, k) == [i \in 1..Len(p) |-> p[1 + ((i + k - 1) % Len(p))]]

(* Clipping one polygon after another, on a grid: what is left of each.       *)
VARIABLES given, by, done, left
clvars == <<given, by, done, left>>
ClipNext(step, n) ==
  /\ Len(done) < Len(given)
  /\ done' = Append(done, CellsIn(given[Len(done)+1], step, n) \cap CellsIn(by, step, n))
  /\ left' = left \cup done'[Len(done')]
  /\ UNCHANGED <<given, by>>
=============================================================================
