----------------------------- MODULE MCFilters -----------------------------
EXTENDS Filters
Xs == {-2, 0, 2}
Ranges == {<<>>, <<-1, 1>>, <<0, 2>>, <<-3, 3>>}
Flash1 == <<1, 0, 0, 0, 0>>
Datasets == {[flash |-> << <<1, 0, 0, fx, 0>>, <<2, lon, 0, 2, 0>> >>,
              group |-> << <<1, 1>>, <<2, 2>>, <<3, g3>> >>,
              event |-> << <<1, 1, ex, 0>>, <<2, 2, 0, ey>>, <<3, 3, ex, ey>>, <<4, 3, 0, 0>> >>] :
             fx \in Xs, lon \in {0, 1}, g3 \in {1, 2}, ex \in Xs, ey \in Xs}
Queries == [lon : {<<>>, <<-1, 1>>}, lat : {<<>>}, x : Ranges, y : {<<>>, <<-1, 1>>},
            minev : {-1, 2, 3}, mingr : {-1, 2}, check : BOOLEAN]
Init == \E d \in Datasets, q \in Queries : Begin(d, q)
Spec == Init /\ [][FilterNext]_fvars
=============================================================================
