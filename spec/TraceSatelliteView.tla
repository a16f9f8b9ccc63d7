------------------------- MODULE TraceSatelliteView -------------------------
(* Judges recorded fixed grid positions, revisions and loads. Tol in 2^-28    *)
(* radians: 80 is 0.3 microradians, about 1/750 of a pixel.                   *)
EXTENDS SatelliteView, TraceBase
CONSTANT Tol
VARIABLE l
At(seen, e) == Near(seen[1], e[1], Tol) /\ Near(seen[2], e[2], Tol)
PlacedOn(res, points, sat, r, earth) ==
  /\ Len(res) = Len(points)
  /\ \A i \in 1..Len(points) : At(res[i], SeenOn(points[i][1], points[i][2], sat, r, earth))
Placed(res, points, sat, r) == PlacedOn(res, points, sat, r, Standard)
Earth(e) == IF e = <<>> THEN Standard ELSE [equatorial |-> e[1], polar |-> e[2], height |-> e[3]]
Clauses(ev) ==
  CASE ev.op = "view" ->
       << <<"one_position_each", Len(ev.res) = Len(ev.points)>>,
          <<"as_seen", Len(ev.res) = Len(ev.points) => PlacedOn(ev.res, ev.points, ev.sat, ev.rev, Earth(ev.earth))>>,
          <<"arguments_unchanged", ev.same>> >>
    [] ev.op = "mirror" ->   \* positions of a place and of its mirror images, computed in one call
       << <<"east_west", /\ Near(ev.res[1][1], -ev.res[2][1], 2) /\ Near(ev.res[1][2], ev.res[2][2], 2)>>,
          <<"north_south", /\ Near(ev.res[1][1], ev.res[3][1], 2) /\ Near(ev.res[1][2], -ev.res[3][2], 2)>>,
          <<"equivalent_longitude", /\ Near(ev.res[1][1], ev.res[4][1], 2) /\ Near(ev.res[1][2], ev.res[4][2], 2)>>,
          <<"below_satellite", Near(ev.res[5][1], 0, 2) /\ Near(ev.res[5][2], 0, 2)>> >>
    [] ev.op = "revision" ->
       << <<"revision_in_force", ev.res.rev = RevisionAt(ev.date)>>,
          <<"radii_of_revision", ev.res.radii = Radii[RevisionAt(ev.date)+1]>> >>
    [] ev.op = "load" ->
       LET r == IF ev.asked >= 0 THEN ev.asked ELSE RevisionAt(ev.date)
       IN << <<"flash_positions", Placed(ev.res.flash, ev.flash, ev.sat, r)>>,
             <<"group_positions", Placed(ev.res.group, ev.group, ev.sat, r)>>,
             <<"event_positions", Placed(ev.res.event, ev.event, ev.sat, r)>> >>
TraceInit == l = 1 /\ at_dlon = 0 /\ at_lat = 0 /\ at_rev = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED pvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pvars>>
=============================================================================
