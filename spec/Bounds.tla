------------------------------- MODULE Bounds -------------------------------
(* The box of longitudes and latitudes that holds all events of a dataset     *)
(* (GLMDataset.fov_bounds). Events are <<lat, lon>>.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Largest(S) == CHOOSE a \in S : \A b \in S : a >= b
Ends(S) == <<Least(S), Largest(S)>>
Column(events, k) == {events[i][k] : i \in 1..Len(events)}
BoundsOf(events) == <<Ends(Column(events, 2)), Ends(Column(events, 1))>>
Holds(box, e) == box[1][1] <= e[2] /\ e[2] <= box[1][2] /\ box[2][1] <= e[1] /\ e[1] <= box[2][2]

(* Widening a box event by event, in any order.                               *)
VARIABLES events, seen, box
bvars == <<events, seen, box>>
Widen(r, v) == IF r = <<>> THEN <<v, v>> ELSE <<IF v < r[1] THEN v ELSE r[1], IF v > r[2] THEN v ELSE r[2]>>
See(i) == /\ i \in (1..Len(events)) \ seen /\ seen' = seen \cup {i}
          /\ box' = <<Widen(box[1], events[i][2]), Widen(box[2], events[i][1])>> /\ UNCHANGED events
=============================================================================
