----------------------------- MODULE MCGridding -----------------------------
EXTENDS Gridding
M == [i \in 1..3 |-> [j \in 1..3 |-> <<64*(j-1), 64*(i-1)>>]]
Sq(x, y) == << <<x-32, y-32>>, <<x+32, y-32>>, <<x+32, y+32>>, <<x-32, y+32>> >>
Locs == {<<Sq(32, 32), Sq(64, 48), Sq(500, 500)>>, <<Sq(64, 64), Sq(96, 96), Sq(32, 96)>>}
Flash == <<[id |-> 1, area |-> 5], [id |-> 2, area |-> 3]>>
Group == <<[id |-> 1, area |-> 2], [id |-> 2, area |-> 1], [id |-> 3, area |-> 4]>>
Of == <<1, 1, 2>>          \* the flash of a group
Ev(g, loc, e) == [flash |-> Of[g], group |-> g, loc |-> loc, energy |-> e]
Init == /\ data \in {[loc |-> ls, flash |-> Flash, group |-> Group,
                      event |-> <<Ev(1, a, 1), Ev(2, b, 2), Ev(3, c, 4), Ev(h, x, 8)>>] :
                      ls \in Locs, a \in 1..2, b \in 1..3, c \in 1..3, h \in 1..3, x \in 1..2}
        /\ mesh = M /\ poly = <<>> /\ todo = {} /\ shares = <<>>
        /\ left = {1, 2} /\ grid = [c \in Cells(M) |-> EmptyCell]
Next == \E F \in SUBSET left : SendChunk(F, M)
Spec == Init /\ [][Next]_<<gvars, mvars>>
(* However the flashes are divided into chunks, the grid is the same.         *)
Whole == left = {} => \A c \in Cells(M) :
           LET p == Product(data, {1, 2}, M, c)
           IN (\A f \in Fields : grid[c][f] = p[f]) /\ grid[c].minarea = Smaller(0, p.sure)
(* Energy is conserved: what is inside the grid arrives there.                *)
Inside(L) == Within(data.loc[L][1], Hull(M), 0) /\ Within(data.loc[L][3], Hull(M), 0)
Arrives == left = {} =>
   AddOver(Cells(M), [c \in Cells(M) |-> grid[c].energy])
     = One15 * AddOver({k \in Indices(data.event) : Inside(data.event[k].loc)}, [k \in Indices(data.event) |-> data.event[k].energy])
(* Away from the grid nothing arrives; a cell counts a flash at most once per *)
(* location.                                                                  *)
Bounded == \A c \in Cells(M) : grid[c].flashes <= One15 * 2 * Len(data.loc) /\ grid[c].groups >= grid[c].flashes
                               /\ (grid[c].minarea = 0) = (grid[c].flashes = 0)
=============================================================================
