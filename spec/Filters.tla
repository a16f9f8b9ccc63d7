------------------------------ MODULE Filters ------------------------------
(* Filtering the flashes of a loaded dataset (GLMDataset.subset_flashes and   *)
(* get_flashes).                                                              *)
(*                                                                            *)
(* data: flash <<id, lon, lat, x, y>>, group <<id, flash>>,                   *)
(*       event <<id, group, x, y>>                                            *)
(* A query gives for lon, lat, x and y a range <<lo, hi>> or <<>> for none,   *)
(* and for the smallest number of events and groups a number or -1 for none.  *)
(* Limits are not part of a range.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT FieldOfView   \* largest x and y of the pixel table

RowsIn(t) == {t[i] : i \in 1..Len(t)}
Inside(v, r) == Len(r) = 0 \/ (r[1] < v /\ v < r[2])
GroupsIn(d, fid) == {d.group[i] : i \in {j \in 1..Len(d.group) : d.group[j][2] = fid}}
EventsBelow(d, gids) == {d.event[i] : i \in {j \in 1..Len(d.event) : d.event[j][2] \in gids}}
EventsIn(d, fid) == LET gids == TLCEval({g[1] : g \in GroupsIn(d, fid)}) IN EventsBelow(d, gids)
AtLeast(n, m) == m = -1 \/ n >= m

Clip(r) == IF Len(r) = 0 THEN <<-FieldOfView, FieldOfView>>
           ELSE << IF r[1] > -FieldOfView THEN r[1] ELSE -FieldOfView,
                   IF r[2] < FieldOfView THEN r[2] ELSE FieldOfView >>
SeesEvent(d, q, fid) ==
  \E e \in EventsIn(d, fid) : Inside(e[3], Clip(q.x)) /\ Inside(e[4], Clip(q.y))

InBox(q, f) == Inside(f[2], q.lon) /\ Inside(f[3], q.lat) /\ Inside(f[4], q.x) /\ Inside(f[5], q.y)
BigEnough(d, q, f) ==
  AtLeast(Cardinality(EventsIn(d, f[1])), q.minev) /\ AtLeast(Cardinality(GroupsIn(d, f[1])), q.mingr)
Passes(d, q, f) == InBox(q, f) /\ BigEnough(d, q, f) /\ (q.check => SeesEvent(d, q, f[1]))

Wanted(d, q) == {f[1] : f \in {g \in RowsIn(d.flash) : Passes(d, q, g)}}
GroupsOf(d, fids) == {g[1] : g \in {h \in RowsIn(d.group) : h[2] \in fids}}
EventsOf(d, fids) == LET gids == TLCEval(GroupsOf(d, fids)) IN {e[1] : e \in EventsBelow(d, gids)}

(* -- The steps of the filter ------------------------------------------------*)
VARIABLES data, query, left, todo
fvars == <<data, query, left, todo>>
Conditions == {"box", "size", "sees"}
Begin(d, q) == data = d /\ query = q /\ left = {f[1] : f \in RowsIn(d.flash)} /\ todo = Conditions
FlashRow(fid) == CHOOSE f \in RowsIn(data.flash) : f[1] = fid
Apply(c) ==
  /\ c \in todo /\ todo' = todo \ {c}
  /\ left' = {fid \in left :
       CASE c = "box" -> InBox(query, FlashRow(fid))
         [] c = "size" -> BigEnough(data, query, FlashRow(fid))
         [] c = "sees" -> query.check => SeesEvent(data, query, fid)}
  /\ UNCHANGED <<data, query>>
FilterNext == \E c \in Conditions : Apply(c)
(* The conditions may be applied in any order.                                *)
FilterCorrect == todo = {} => left = Wanted(data, query)
NeverLosesAPassingFlash == Wanted(data, query) \subseteq left
(* A looser query keeps at least as much.                                     *)
EventCheckOnlyDrops ==
  todo = {} => left \subseteq Wanted(data, [query EXCEPT !.check = FALSE])
NothingWithoutConditions ==
  (todo = {} /\ query = [lon |-> <<>>, lat |-> <<>>, x |-> <<>>, y |-> <<>>, minev |-> -1, mingr |-> -1, check |-> FALSE])
    => left = {f[1] : f \in RowsIn(data.flash)}
=============================================================================
