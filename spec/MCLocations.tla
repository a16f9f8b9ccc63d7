---------------------------- MODULE MCLocations ----------------------------
EXTENDS Locations
Spaces == [xmin : {-2, 0}, xmax : {1, 2, 4}, ymin : {-1, 0}, ymax : {1, 3}, step : 1..2]
Init == space \in Spaces /\ seen = {}
Next == Cardinality(seen) < 2 /\ \E p \in Positions(space) : NumberOne(p)
Spec == Init /\ [][Next]_nvars
=============================================================================
