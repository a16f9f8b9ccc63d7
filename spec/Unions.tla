------------------------------- MODULE Unions -------------------------------
(* Union of polygons (glmtools.grid.clipping.join_polys).                     *)
EXTENDS Polygons, TLC
EnclosedBySome(ps, v) == \E k \in 1..Len(ps) : Encloses(ps[k], v)
(* Outlines enclose what lies inside an odd number of them, holes included.   *)
EnclosedByOutlines(os, v) == Cardinality({k \in 1..Len(os) : Encloses(os[k], v)}) % 2 = 1
AwayFromEdges(ps, v, tol) == \A k \in 1..Len(ps) : ~NearEdge(v, ps[k], tol)
(* Polygons whose edges lie on the lines of a grid of the given step: the     *)
(* cells they cover are known by their centres.                               *)
CoveredCells(ps, step, n) ==
  {c \in (0..n-1) \X (0..n-1) :
     EnclosedBySome(ps, <<c[1]*step + step \div 2, c[2]*step + step \div 2>>)}
SumArea2(os) == FoldLeft(LAMBDA acc, p : acc + SignedArea2(p), 0, os)

(* Joining one polygon after another.                                         *)
VARIABLES given, joined, covered
uvars == <<given, joined, covered>>
Join(k, step, n) ==
  /\ k \in (1..Len(given)) \ joined
  /\ joined' = joined \cup {k}
  /\ covered' = covered \cup CoveredCells(<<given[k]>>, step, n)
  /\ UNCHANGED given
=============================================================================
