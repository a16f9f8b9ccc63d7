------------------------------- MODULE Tiles -------------------------------
(* Tiles of a grid (glmtools.grid.make_grids). A side of n cells is cut into  *)
(* s segments of equal length; the last takes what remains.                   *)
EXTENDS Integers, Sequences, FiniteSets
SideEdges(n, s) == [k \in 1..s+1 |-> IF k = s+1 THEN n ELSE (k-1) * (n \div s)]
Segment(edges, k) == {i \in edges[1]..edges[Len(edges)] : edges[k] <= i /\ i < edges[k+1]}
(* Cell edges that cut a side of n cells: every cell is in one segment.       *)
Cuts(edges, n, s) == /\ Len(edges) = s+1 /\ edges[1] = 0 /\ edges[s+1] = n
                     /\ \A k \in 1..s : edges[k] <= edges[k+1]
Even(edges, s) == \A k \in 1..s-1 : /\ edges[k+1] - edges[k] = edges[2] - edges[1]
                                    /\ edges[s+1] - edges[s] >= edges[2] - edges[1]
(* The data box of a tile: its cells and the padding on every side.           *)
Padded(lo, hi, pad) == <<lo - pad, hi + pad>>
(* The output of a padded tile without its padding.                           *)
Trimmed(s, pad) == SubSeq(s, pad + 1, Len(s) - pad)
TrimmedGrid(g, pads) == LET rows == Trimmed(g, pads[1]) IN [i \in 1..Len(rows) |-> Trimmed(rows[i], pads[2])]
TrimmedOutput(c, pads) == [c EXCEPT !.x = Trimmed(@, pads[1]), !.y = Trimmed(@, pads[2]), !.grid = TrimmedGrid(@, pads)]
=============================================================================
