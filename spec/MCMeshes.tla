------------------------------ MODULE MCMeshes ------------------------------
EXTENDS Meshes
K == 240     \* units per step of the small grid; the divisions below are exact
V == {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<3, 3>>, <<1, 3>>, <<0, 2>>, <<2, 2>>, <<3, 0>>}
Scale(v) == <<K*v[1], K*v[2]>>
Triangles == {<<a, b, c>> \in V \X V \X V : Cross(a, b, c) # 0}
Rects == {<<a, <<b[1], a[2]>>, b, <<a[1], b[2]>> >> : <<a, b>> \in {<<u, w>> \in V \X V : u[1] < w[1] /\ u[2] < w[2]}}
Polys == {[i \in 1..Len(p) |-> Scale(p[i])] : p \in Triangles \cup Rects}
Regular(xs, ys) == [i \in 1..Len(ys) |-> [j \in 1..Len(xs) |-> Scale(<<xs[j], ys[i]>>)]]
Turned(xs, ys) == [j \in 1..Len(xs) |-> [i \in 1..Len(ys) |-> Scale(<<xs[j], ys[i]>>)]]
Bent == [i \in 1..3 |-> [j \in 1..3 |-> LET v == Scale(<<j-1, i-1>>)
                                        IN IF i = 2 /\ j = 2 THEN <<v[1]+48, v[2]-36>> ELSE v]]
Grids == {Regular(<<0, 1, 2>>, <<0, 1, 2>>), Turned(<<0, 1, 3>>, <<0, 2, 3>>), Regular(<<2, 1, 0>>, <<1, 2, 3>>), Bent}
Init == mesh \in Grids /\ poly \in Polys /\ StartSlice
Next == todo # {} /\ SliceCell(CHOOSE c \in todo : TRUE)
Spec == Init /\ [][Next]_mvars
(* When all cells are visited the shares make up the part in the mesh.        *)
Conserved == todo = {} =>
  LET in == Overlap2(poly, Hull(mesh))  sum == SumOver(shares, DOMAIN shares)
  IN AbsP(in - sum) <= 1500
NoMore == SumOver(shares, DOMAIN shares) <= Area2(poly) + 1500
(* Clipping by a polygon and clipping that polygon are the same.              *)
Mutual == \A c \in todo : AbsP(Overlap2(poly, Quad(mesh, c)) - Overlap2(Quad(mesh, c), poly)) <= 1500
(* A cell is touched only if its extent is.                                   *)
BoxSuffices == LET e == Extent(poly) IN Touched(mesh, poly) \subseteq BoxCells(mesh, <<e.x0, e.x1, e.y0, e.y1>>)
=============================================================================
