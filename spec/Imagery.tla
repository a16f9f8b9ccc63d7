------------------------------ MODULE Imagery ------------------------------
(* Images written from accumulated grids (glmtools.io.imagery).               *)
(*                                                                            *)
(* A grid is grid[frame][i][j], i along x and j along y (upwards). An image   *)
(* has rows from the top. Values are in 1/64 of the scale factor of their     *)
(* product; the two grids of total areas are divided by counts, which are in  *)
(* multiples of 2^-10.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
Unit == 64
Top == 65535
(* Encoding of a value.                                                       *)
Code(v) == IF v = 0 THEN 0 ELSE IF v <= Unit THEN 1 ELSE (v + Unit \div 2) \div Unit
Decode(c) == c * Unit
(* With an offset, in scales.                                                 *)
CodeFrom(v, offset) == IF v = 0 THEN 0 ELSE IF v <= (offset + 1) * Unit THEN 1
                       ELSE (v - offset * Unit + Unit \div 2) \div Unit
(* What may be read back for a value: the nearest multiple, but never nothing *)
(* for something. slack allows for the rounding of single precision.          *)
ReadsAs(got, v, slack) ==
  IF v = 0 THEN got = 0
  ELSE /\ got > 0 /\ got % Unit = 0
       /\ IF v < Unit - slack THEN got = Unit
          ELSE got - v <= Unit \div 2 + slack /\ v - got <= Unit \div 2 + slack
ReadsPlain(got, v, slack) == IF v = 0 THEN got = 0 ELSE got > 0 /\ got - v <= slack /\ v - got <= slack

(* Averages are total divided by count, and nothing where there is nothing.   *)
(* An average too small for the units is still something.                    *)
Average(total, count) ==
  IF total = 0 \/ count = 0 THEN 0
  ELSE LET a == (total * 1024 + count \div 2) \div count IN IF a = 0 THEN 1 ELSE a
Products == <<"flash_extent", "flash_centroid", "flash_area", "energy", "group_extent", "group_centroid", "group_area", "least_area">>
Over(f) == CASE f = "flash_area" -> "flash_extent" [] f = "group_area" -> "group_extent" [] OTHER -> ""
(* Counts of extent are in 1/64 of their scales, 2^-4 and 2^-2; in 2^-10:     *)
CountIn10(f, v) == IF f = "flash_extent" THEN v ELSE v * 4
ValueAt(grids, f, k, i, j) ==
  IF Over(f) = "" THEN grids[f][k][i][j]
  ELSE Average(grids[f][k][i][j], CountIn10(Over(f), grids[Over(f)][k][i][j]))

(* The cells of an image that leaves out some at the ends of each direction.  *)
Columns(n, ends) == [c \in 1..n-ends[1]-ends[2] |-> c + ends[1]]
RowsDown(n, ends) == [r \in 1..n-ends[1]-ends[2] |-> n - ends[2] - r + 1]
Image(g, k, n, m, px, py) ==
  LET cs == Columns(n, px)  rs == RowsDown(m, py)
  IN [r \in 1..Len(rs) |-> [c \in 1..Len(cs) |-> g[k][cs[c]][rs[r]]]]
(* The cell a coordinate is in, 0 if in none.                                 *)
CellAt(edges, x) ==
  LET s == {c \in 1..Len(edges)-1 : edges[c] <= x /\ x < edges[c+1]}
  IN IF s = {} THEN 0 ELSE CHOOSE c \in s : TRUE

(* Writing: one file per frame, again and again.                              *)
VARIABLES grid, nx, ny, pad, files, written
ivars == <<grid, nx, ny, pad, files, written>>
NFrames == Len(grid)
WriteNext ==
  /\ written < 2 * NFrames
  /\ LET k == (written % NFrames) + 1
     IN files' = Append(files, [frame |-> k, cols |-> Columns(nx, pad[1]), rows |-> RowsDown(ny, pad[2]),
                                image |-> Image(grid, k, nx, ny, pad[1], pad[2])])
  /\ written' = written + 1 /\ UNCHANGED <<grid, nx, ny, pad>>
=============================================================================
