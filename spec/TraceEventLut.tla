--------------------------- MODULE TraceEventLut ---------------------------
(* Judges recorded event location tables. res.of gives the row of each event  *)
(* (row numbers stand for the identifiers) and res.rows the table.            *)
EXTENDS EventLut, TraceBase
VARIABLE l
Clauses(ev) ==
  LET d == ev.data
      r == ev.res
      n == Len(d.event)
      shaped == Len(r.of) = n
      mine(k) == {i \in 1..n : r.of[i] = k}
      (* rows with the events of one cell *)
      sound == shaped /\ \A k \in 1..Len(r.rows) : mine(k) # {} /\ Cardinality({CellOf(d, d.event[i]) : i \in mine(k)}) = 1
      want(k) == Entry(d, CellOf(d, d.event[CHOOSE i \in mine(k) : TRUE]))
      Each(P(_, _)) == sound => \A k \in 1..Len(r.rows) : P(r.rows[k], want(k))
  IN << <<"every_event_has_a_row", shaped /\ \A i \in 1..n : r.of[i] \in 1..Len(r.rows)>>,
        <<"rows_are_locations", sound>>,
        <<"one_row_per_location", Len(r.rows) = Cardinality(Cells(d))>>,
        <<"event_count", Each(LAMBDA a, b : a.count = b.count)>>,
        <<"energy", Each(LAMBDA a, b : a.energy = b.energy)>>,
        <<"flash_count", Each(LAMBDA a, b : a.flashes = b.flashes)>>,
        <<"group_count", Each(LAMBDA a, b : a.groups = b.groups)>>,
        <<"total_flash_area", Each(LAMBDA a, b : a.flasharea = b.flasharea)>>,
        <<"total_group_area", Each(LAMBDA a, b : a.grouparea = b.grouparea)>>,
        <<"smallest_flash_area", Each(LAMBDA a, b : a.minarea = b.minarea)>>,
        <<"mean_position", Each(LAMBDA a, b : /\ Near((a.x - b.corner[1]) * b.count, b.xsum, b.count)
                                              /\ Near((a.y - b.corner[2]) * b.count, b.ysum, b.count))>>,
        <<"product_time", \A k \in 1..Len(r.rows) : r.rows[k].time = 0>>,
        <<"energy_conserved", SumSeq([k \in 1..Len(r.rows) |-> r.rows[k].energy]) = AddUp(1..n, Column(d.event, 5))>>,
        <<"events_conserved", SumSeq([k \in 1..Len(r.rows) |-> r.rows[k].count]) = n>>,
        <<"source_unchanged", ev.same>> >>
TraceInit == l = 1 /\ ds = <<>> /\ left = {} /\ table = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED evars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, evars>>
=============================================================================
