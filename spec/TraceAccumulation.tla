------------------------- MODULE TraceAccumulation -------------------------
(* Judges recorded grids: ev.res[i][j] is the cell <<i-1, j-1>>.              *)
EXTENDS Accumulation, TraceBase
VARIABLE l
Clauses(ev) ==
  LET shaped == Len(ev.res) = ev.nx /\ \A i \in 1..ev.nx : Len(ev.res[i]) = ev.ny
      cells == CellsOf(ev.nx, ev.ny)
      at(c) == ev.res[c[1]+1][c[2]+1]
      batches == IF ev.empties THEN SelectSeq(ev.batches, LAMBDA b : Len(b) > 0) ELSE ev.batches
  IN << <<"one_value_per_cell", shaped>>,
        <<"named_cells", shaped => \A c \in cells : ValuesAt(batches, c) # <<>> => at(c) = Expected(ev.kind, batches, c)>>,
        <<"other_cells_empty", shaped => \A c \in cells : ValuesAt(batches, c) = <<>> => at(c) = 0>>,
        <<"given_back", ev.out>> >>
TraceInit == l = 1 /\ grid = <<>> /\ sent = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED avars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, avars>>
=============================================================================
