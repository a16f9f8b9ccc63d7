--------------------------- MODULE TraceLocations ---------------------------
(* Judges recorded location identifiers. res numbers the distinct identifiers *)
(* in order of appearance, one per position.                                  *)
EXTENDS Locations, TraceBase
VARIABLE l
Clauses(ev) ==
  LET n == Len(ev.points)
      cells == [i \in 1..n |-> <<CellX(ev.space, ev.points[i][1]), CellY(ev.space, ev.points[i][2])>>]
      (* the first position in the same cell, and with the same identifier *)
      firstcell == [i \in 1..n |-> CHOOSE j \in 1..i : cells[j] = cells[i] /\ \A k \in 1..j-1 : cells[k] # cells[i]]
      shaped == Len(ev.res) = n
      firstid == [i \in 1..n |-> CHOOSE j \in 1..i : ev.res[j] = ev.res[i] /\ \A k \in 1..j-1 : ev.res[k] # ev.res[i]]
  IN << <<"one_identifier_per_position", shaped>>,
        <<"same_cell_same_identifier", shaped => \A i \in 1..n : ev.res[firstcell[i]] = ev.res[i]>>,
        <<"different_cell_different_identifier", shaped => \A i \in 1..n : cells[firstid[i]] = cells[i]>>,
        <<"arguments_unchanged", ev.same>> >>
TraceInit == l = 1 /\ space = <<>> /\ seen = {}
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED nvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, nvars>>
=============================================================================
