------------------------------- MODULE Meshes -------------------------------
(* Quadrilateral meshes (glmtools.grid.clipping): lookup of cells and slicing *)
(* of polygons. A mesh is a matrix of vertices; cell <<i, j>> (from 0) has    *)
(* the corners of rows i, i+1 and columns j, j+1.                             *)
EXTENDS Polygons, TLC
Rows0(m) == 0..Len(m)-2
Cols0(m) == 0..Len(m[1])-2
Cells(m) == Rows0(m) \X Cols0(m)
Quad(m, c) == <<m[c[1]+1][c[2]+1], m[c[1]+1][c[2]+2], m[c[1]+2][c[2]+2], m[c[1]+2][c[2]+1]>>
Extents(m) == [c \in Cells(m) |-> Extent(Quad(m, c))]
(* The rounding of a vertex moves it by about a unit.                         *)
Slack(m, c) == LET e == Extent(Quad(m, c)) IN 3 * (e.x1 - e.x0 + e.y1 - e.y0) + 4

(* Cells whose extent overlaps the box <<xmin, xmax, ymin, ymax>>             *)
InBox(m, c, b) == LET e == Extent(Quad(m, c))
                  IN e.x0 < b[2] /\ e.x1 > b[1] /\ e.y0 < b[4] /\ e.y1 > b[3]
BoxCells(m, b) == {c \in Cells(m) : InBox(m, c, b)}
(* Centres, times four, and squared distances from a point, times sixteen.    *)
Centre4(m, c) == LET q == Quad(m, c) IN <<q[1][1]+q[2][1]+q[3][1]+q[4][1], q[1][2]+q[2][2]+q[3][2]+q[4][2]>>
Dist16(m, c, v) == LET z == Centre4(m, c)
                       dx == z[1] - 4*v[1]  dy == z[2] - 4*v[2]
                   IN dx*dx + dy*dy
NearestCells(m, v, chosen) == \A c \in chosen, o \in Cells(m) \ chosen : Dist16(m, c, v) <= Dist16(m, o, v)

(* Slicing: the share of a polygon in every cell.                             *)
ShareOf(m, p, c) == Overlap2(p, Quad(m, c))
Touched(m, p) == {c \in Cells(m) : ShareOf(m, p, c) > 0}

(* A slicer that clips one cell after another; what is left of the polygon is *)
(* what lies in the cells not yet visited, or outside the mesh.               *)
VARIABLES mesh, poly, todo, shares
mvars == <<mesh, poly, todo, shares>>
StartSlice == todo = Cells(mesh) /\ shares = [c \in {} |-> 0]
SliceCell(c) ==
  /\ c \in todo
  /\ todo' = todo \ {c}
  /\ shares' = IF ShareOf(mesh, poly, c) > 0 THEN shares @@ (c :> ShareOf(mesh, poly, c)) ELSE shares
  /\ UNCHANGED <<mesh, poly>>
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN f[c] + SumOver(f, S \ {c})
Hull(m) == LET n == Len(m)  k == Len(m[1]) IN <<m[1][1], m[1][k], m[n][k], m[n][1]>>
=============================================================================
