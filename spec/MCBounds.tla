------------------------------ MODULE MCBounds ------------------------------
EXTENDS Bounds
Points == (-1..1) \X (0..2)
Init == events \in {<<a, b, c>> : a \in Points, b \in Points, c \in Points} /\ seen = {} /\ box = << <<>>, <<>> >>
Next == \E i \in 1..3 : See(i)
Spec == Init /\ [][Next]_bvars
HoldsSeen == \A i \in seen : Holds(box, events[i])
AnyOrder == seen = 1..Len(events) => box = BoundsOf(events)
(* No smaller box holds all events.                                           *)
Smallest == seen # {} =>
  \A k \in {1, 2} : \E i \in seen, j \in seen : events[i][3-k] = box[k][1] /\ events[j][3-k] = box[k][2]
=============================================================================
