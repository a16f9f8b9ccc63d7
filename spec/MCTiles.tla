------------------------------ MODULE MCTiles ------------------------------
(* Handing out the tiles one by one gives every cell away once.               *)
EXTENDS Tiles
CONSTANTS N, S
VARIABLES nx, ny, s, out, given
vars == <<nx, ny, s, out, given>>
Tile(i, j) == LET ex == SideEdges(nx, s)  ey == SideEdges(ny, s)
              IN {c \in (0..nx-1) \X (0..ny-1) : ex[i] <= c[1] /\ c[1] < ex[i+1] /\ ey[j] <= c[2] /\ c[2] < ey[j+1]}
Init == nx \in 1..N /\ ny \in 1..N /\ s \in 1..S /\ out = {} /\ given = {}
\* in the order of the code: the second index runs fastest
Order(t) == (t[1]-1)*s + t[2]
Give == \E t \in ((1..s) \X (1..s)) : /\ Order(t) = Cardinality(out) + 1
           /\ out' = out \cup {t} /\ given' = given \cup Tile(t[1], t[2]) /\ UNCHANGED <<nx, ny, s>>
Next == Give
Spec == Init /\ [][Next]_vars
Once == \A t \in out, u \in out : t # u => Tile(t[1], t[2]) \cap Tile(u[1], u[2]) = {}
All == Cardinality(out) = s*s => given = (0..nx-1) \X (0..ny-1)
\* cutting the padding off a padded side leaves its cells
Whole == \A pad \in 0..S : Trimmed([k \in 1..nx+2*pad |-> k - pad - 1], pad) = [k \in 1..nx |-> k - 1]
Cut == Cuts(SideEdges(nx, s), nx, s) /\ Even(SideEdges(nx, s), s)
=============================================================================
