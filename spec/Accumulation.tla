---------------------------- MODULE Accumulation ----------------------------
(* Accumulating batches of pre-gridded rows (glmtools.grid.accumulate).  A    *)
(* row is [c, v]: the cell <<first index, second index>> and a value; a batch *)
(* names a cell at most once.  Zero is an empty cell.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CellsOf(nx, ny) == (0..nx-1) \X (0..ny-1)
Rowset(b) == {b[k] : k \in 1..Len(b)}
Distinct(b) == \A i, j \in 1..Len(b) : i # j => b[i].c # b[j].c
ValuesAt(bs, c) == FoldLeft(LAMBDA acc, b : acc \o SelectSeq(b, LAMBDA r : r.c = c), <<>>, bs)
Total(bs, c) == FoldLeft(LAMBDA acc, r : acc + r.v, 0, ValuesAt(bs, c))
Smallest(bs, c) == LET vs == {r.v : r \in Rowset(ValuesAt(bs, c))}
                   IN IF vs = {} THEN 0 ELSE CHOOSE m \in vs : \A x \in vs : m <= x
Expected(kind, bs, c) == IF kind = "sum" THEN Total(bs, c) ELSE Smallest(bs, c)

(* One batch after another onto the grid.                                     *)
VARIABLES grid, sent
avars == <<grid, sent>>
AddOne(kind, g, v) == IF kind = "sum" THEN g + v
                      ELSE IF g = 0 THEN v ELSE IF v < g THEN v ELSE g
Send(kind, b) ==
  /\ Distinct(b)
  /\ grid' = [c \in DOMAIN grid |-> LET hit == SelectSeq(b, LAMBDA r : r.c = c)
                                    IN IF hit = <<>> THEN grid[c] ELSE AddOne(kind, grid[c], hit[1].v)]
  /\ sent' = Append(sent, b)
=============================================================================
