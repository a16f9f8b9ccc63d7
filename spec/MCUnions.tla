------------------------------ MODULE MCUnions ------------------------------
EXTENDS Unions
N == 3
S == 2
Rect(a, b, c, d) == << <<S*a, S*c>>, <<S*b, S*c>>, <<S*b, S*d>>, <<S*a, S*d>> >>
Rects == {Rect(a, b, c, d) : <<a, b, c, d>> \in {q \in (0..N) \X (0..N) \X (0..N) \X (0..N) : q[1] < q[2] /\ q[3] < q[4]}}
Turns == {Reverse(r) : r \in Rects}
Init == /\ given \in {<<a, b>> : a \in Rects, b \in Rects \cup Turns}
        /\ joined = {} /\ covered = {}
Next == \E k \in 1..2 : Join(k, S, N)
Spec == Init /\ [][Next]_uvars
(* Any order of joining covers the same cells, whatever the winding.          *)
AsOne == joined = 1..Len(given) => covered = CoveredCells(given, S, N)
(* The covered area is the sum of areas less the common part.                 *)
Inclusion == joined = 1..Len(given) =>
  2*S*S*Cardinality(covered) = Area2(given[1]) + Area2(given[2]) - Overlap2(given[1], given[2])
=============================================================================
