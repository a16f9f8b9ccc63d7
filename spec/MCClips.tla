------------------------------ MODULE MCClips ------------------------------
EXTENDS Clips
N == 3
S == 2
Rect(a, b, c, d) == << <<S*a, S*c>>, <<S*b, S*c>>, <<S*b, S*d>>, <<S*a, S*d>> >>
Rects == {Rect(a, b, c, d) : <<a, b, c, d>> \in {q \in (0..N) \X (0..N) \X (0..N) \X (0..N) : q[1] < q[2] /\ q[3] < q[4]}}
Ell == << <<0, 0>>, <<3*S, 0>>, <<3*S, S>>, <<S, S>>, <<S, 3*S>>, <<0, 3*S>> >>
Ring == << <<0, 0>>, <<3*S, 0>>, <<3*S, 3*S>>, <<2*S, 3*S>>, <<2*S, S>>, <<S, S>>, <<S, 3*S>>, <<0, 3*S>> >>
Init == /\ given \in {<<a, b>> : a \in Rects \cup {Ell, Reverse(Ring)}, b \in {Rect(0, 2, 1, 3), Ring}}
        /\ by \in {Reverse(r) : r \in Rects} \cup {Ell, Ring} /\ done = <<>> /\ left = {}
Next == ClipNext(S, N)
Spec == Init /\ [][Next]_clvars
Convex(p) == Len(p) = 4
(* What is left of each polygon is in it and in the clipping polygon.         *)
Contained == \A k \in 1..Len(done) : done[k] = {c \in CellsIn(given[k], S, N) : c \in CellsIn(by, S, N)}
(* Areas are those of the cells, whatever the winding and the first vertex.   *)
Areas == Len(done) = Len(given) => \A k \in 1..Len(given) :
           /\ Area2(given[k]) = 2*S*S*Cardinality(CellsIn(given[k], S, N))
           /\ SignedArea2(Reverse(given[k])) = -SignedArea2(given[k])
           /\ \A r \in 0..Len(given[k])-1 : SignedArea2(Rotated(given[k], r)) = SignedArea2(given[k])
           /\ Convex(by) => 2*S*S*Cardinality(done[k]) = Overlap2(given[k], by)
(* Clipping the union leaves the union of what is left.                       *)
Together == Len(done) = Len(given) => left = UNION {done[k] : k \in 1..Len(done)}
=============================================================================
