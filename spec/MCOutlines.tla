----------------------------- MODULE MCOutlines -----------------------------
EXTENDS Outlines
Foot == [l |-> 50, r |-> 50, b |-> 50, t |-> 100]
Big == Larger(Foot)
Spots == {<<100*i, 150*j>> : i \in 0..2, j \in 0..1} \cup {<<50, 40>>}
(* A grid of uneven cells that covers everything.                             *)
Xs == <<-60, 30, 51, 200, 290>>
Ys == <<-90, 99, 140, 300>>
Cells == {[x0 |-> Xs[i], x1 |-> Xs[i+1], y0 |-> Ys[j], y1 |-> Ys[j+1]] : i \in 1..4, j \in 1..3}
Init == /\ pending \in {{Rect(Big, p[1], p[2]) : p \in P} : P \in {Q \in SUBSET Spots : Q # {} /\ Cardinality(Q) <= 4}}
        /\ outline = {} /\ area = 0
Next == \E r \in pending : JoinEvent(r)
Spec == Init /\ [][Next]_ovars
(* The area does not depend on the order of joining.                          *)
AnyOrder == outline # {} => area = AreaOf(outline)
(* The cells share the outline among them, no cell more than its own area.    *)
Shared == outline # {} =>
  LET in(c) == AreaIn(outline, c) IN MapThenSumSet(in, Cells) = area /\ \A c \in Cells : in(c) <= CellArea(c)
(* Events that do not overlap add up.                                         *)
Apart == (outline # {} /\ \A r, s \in outline : r = s \/ ~Meets(r, s)) => area = MapThenSumSet(CellArea, outline)
=============================================================================
