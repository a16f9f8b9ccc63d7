---------------------------- MODULE PointTables ----------------------------
(* Tables of points from files (glmtools.io.mimic_lma). Data has              *)
(*   flash - [id, lat, lon, area, energy, start, lasts]                       *)
(*   group - the same and flash, event - [id, group, flash, lat, lon, time,   *)
(*   energy]                                                                  *)
(* A table of a level has a row for each of its records and one for each      *)
(* event, which names the record it belongs to.                               *)
EXTENDS Integers, Sequences, FiniteSets
Levels == {"flash", "group", "event"}
Rows(s) == 1..Len(s)
Parent(e, level) == IF level = "event" THEN e.id ELSE e[level]
EventRow(e, level) == [parent |-> Parent(e, level), lat |-> e.lat, lon |-> e.lon, time |-> e.time, energy |-> e.energy]
(* An event has no area of its own.                                           *)
OwnRow(r, level) ==
  [id |-> r.id, lat |-> r.lat, lon |-> r.lon, energy |-> r.energy,
   area |-> IF level = "event" THEN 0 ELSE r.area,
   start |-> IF level = "event" THEN r.time ELSE r.start,
   lasts |-> IF level = "event" THEN 0 ELSE r.lasts]
FlashIds(d) == {d.flash[k].id : k \in Rows(d.flash)}
Own(r, level) == IF level = "flash" THEN r.id ELSE r.flash
EventsIn(d, F) == SelectSeq(d.event, LAMBDA e : e.flash \in F)
RecordsIn(d, F, level) == SelectSeq(d[level], LAMBDA r : Own(r, level) \in F)
EventTable(d, F, level) == LET s == EventsIn(d, F) IN [k \in Rows(s) |-> EventRow(s[k], level)]
OwnTable(d, F, level) == LET s == RecordsIn(d, F, level) IN [k \in Rows(s) |-> OwnRow(s[k], level)]
(* Which flashes: inside the box (when there is one) and with enough events   *)
(* and groups. A range is << >> or <<low, high>>.                             *)
Between(v, r) == r = << >> \/ (r[1] < v /\ v < r[2])
Chosen(d, q) == {f \in FlashIds(d) : \E k \in Rows(d.flash) :
   /\ d.flash[k].id = f
   /\ Between(d.flash[k].lat, q.lat) /\ Between(d.flash[k].lon, q.lon)
   /\ Cardinality({j \in Rows(d.event) : d.event[j].flash = f}) >= q.events
   /\ Cardinality({j \in Rows(d.group) : d.group[j].flash = f}) >= q.groups}
(* A lasso is a box for a window of time, in positions and in event codes.    *)
(* Without lassos everything is taken.                                        *)
Holds(v, r) == r[1] <= v /\ v <= r[2]
Lassoed(t, lat, lon, lassos, ks) == lassos = << >> \/ \E k \in Rows(lassos) :
   lassos[k].t0 <= t /\ t < lassos[k].t1 /\ Holds(lat, lassos[k][ks[1]]) /\ Holds(lon, lassos[k][ks[2]])
LassoEvent(r, lassos) == Lassoed(r.time, r.lat, r.lon, lassos, <<"elat", "elon">>)
LassoFlash(r, lassos) == Lassoed(r.start, r.lat, r.lon, lassos, <<"lat", "lon">>)
(* Tables are equal when they have the same rows, however ordered.            *)
Times(t, r) == Cardinality({k \in Rows(t) : t[k] = r})
SameRows(a, b) ==
  /\ Len(a) = Len(b)
  /\ LET A == {a[k] : k \in Rows(a)}  B == {b[k] : k \in Rows(b)}
     IN A = B /\ (Cardinality(B) = Len(b) \/ \A k \in Rows(b) : Times(a, b[k]) = Times(b, b[k]))

VARIABLES data, query, left, table
vars == <<data, query, left, table>>
Empty == [l \in Levels |-> [events |-> << >>, own |-> << >>]]
SendChunk(F) ==
  /\ F # {} /\ F \subseteq left /\ left' = left \ F
  /\ table' = [l \in Levels |-> [events |-> table[l].events \o EventTable(data, F, l),
                                 own |-> table[l].own \o OwnTable(data, F, l)]]
  /\ UNCHANGED <<data, query>>
=============================================================================
