--------------------------- MODULE MCPointTables ---------------------------
EXTENDS PointTables
G(g, f) == [id |-> g, flash |-> f, lat |-> 1, lon |-> 1, area |-> 2, energy |-> 4, start |-> 0, lasts |-> 0]
F(f, lat) == [id |-> f, lat |-> lat, lon |-> 0, area |-> 6, energy |-> 7, start |-> f, lasts |-> 3]
E(e, g, f) == [id |-> e, group |-> g, flash |-> f, lat |-> 0, lon |-> 0, time |-> 0, energy |-> 1]
Of == <<1, 1, 2, 3>>
Datas == {[flash |-> <<F(1, a), F(2, b), F(3, 0)>>, group |-> [g \in 1..4 |-> G(g, Of[g])],
           event |-> [e \in 1..4 |-> E(e, h[e], Of[h[e]])]] : a \in {0, 2}, b \in {0, 1}, h \in {x \in [1..4 -> 1..4] : x[1] = 1 /\ x[2] <= 2}}
Queries == {[lat |-> r, lon |-> << >>, events |-> n, groups |-> m] : r \in {<< >>, <<0, 2>>, <<-1, 1>>}, n \in 0..2, m \in 0..2}
Init == data \in Datas /\ query \in Queries /\ left = Chosen(data, query) /\ table = Empty
Next == \E S \in SUBSET left : SendChunk(S)
Spec == Init /\ [][Next]_vars
Whole == left = {} => \A l \in Levels :
   /\ SameRows(table[l].events, EventTable(data, Chosen(data, query), l))
   /\ SameRows(table[l].own, OwnTable(data, Chosen(data, query), l))
(* Every level has all events of the chosen flashes, and every event row      *)
(* names a row of its level.                                                  *)
Named == left = {} => \A l \in Levels : /\ Len(table[l].events) = Len(EventsIn(data, Chosen(data, query)))
   /\ \A k \in Rows(table[l].events) : \E j \in Rows(table[l].own) : table[l].own[j].id = table[l].events[k].parent
=============================================================================
