--------------------------- MODULE TraceOutlines ---------------------------
(* Judges recorded pieces of events, groups and flashes.                      *)
(* Fractions of cells are in 1/10000, energies of pieces in 1/16.             *)
EXTENDS Outlines, TraceBase
VARIABLE l
Levels == <<"event", "group", "flash">>
Flash(level, r) == IF level = "flash" THEN r.id ELSE r.flash
Mine(ev, level) == {k \in Indices(ev.data[level]) : Flash(level, ev.data[level][k]) \in SetOf(ev.flashes)}
In(ev, r) == {k \in Indices(ev.cells) : ev.cells[k].i = r.i /\ ev.cells[k].j = r.j}
LevelClauses(ev, level) ==
  LET d == ev.data  rows == ev.res[level].rows  own == ev.res[level].own  mine == Mine(ev, level)
      ids == {d[level][k].id : k \in mine}
      rec(id) == d[level][CHOOSE k \in mine : d[level][k].id = id]
      valid == \A n \in Indices(rows) : rows[n].id \in ids /\ In(ev, rows[n]) # {}
      parts == TLCEval([id \in ids |-> Parts(d, level, id)])
      all == TLCEval([id \in ids |-> AreaOf(parts[id])])
      of(id, c) == {n \in Indices(rows) : rows[n].id = id /\ rows[n].i = c.i /\ rows[n].j = c.j}
      frac(n) == rows[n].frac
      energy(n) == rows[n].energy
      inCell(n, c, e) ==
        IF level = "event"
        THEN LET x0 == Max2(c.x0, e.x0)  x1 == Min2(c.x1, e.x1)  y0 == Max2(c.y0, e.y0)  y1 == Min2(c.y1, e.y1)
             IN Near(2*rows[n].x, x0 + x1, 2) /\ Near(2*rows[n].y, y0 + y1, 2)
        ELSE /\ rows[n].x >= Max2(c.x0, e.x0) - 1 /\ rows[n].x <= Min2(c.x1, e.x1) + 1
             /\ rows[n].y >= Max2(c.y0, e.y0) - 1 /\ rows[n].y <= Min2(c.y1, e.y1) + 1
  IN << <<level \o "_pieces_of_records_and_cells", valid>>,
        <<level \o "_cell_fraction", valid => \A id \in ids : \A k \in Indices(ev.cells) :
             LET c == ev.cells[k]  S == of(id, c)  a == AreaIn(parts[id], c)
             IN Near(MapThenSumSet(frac, S), (10000 * a) \div CellArea(c), 2 + Cardinality(S))>>,
        <<level \o "_energy_by_area", valid => \A id \in ids : \A k \in Indices(ev.cells) :
             LET c == ev.cells[k]  S == of(id, c)  a == AreaIn(parts[id], c)
             IN Near(MapThenSumSet(energy, S), (16 * rec(id).energy * a) \div all[id], 2 + Cardinality(S))>>,
        <<level \o "_time", valid => \A n \in Indices(rows) : rows[n].time = rec(rows[n].id).time>>,
        <<level \o "_place", valid => \A n \in Indices(rows) :
             inCell(n, ev.cells[CHOOSE k \in In(ev, rows[n]) : TRUE], Extent(parts[rows[n].id]))>>,
        <<level \o "_own_rows", (ev.target /\ rows = <<>>) \/
             (Len(own) = Cardinality(mine) /\ SetOf(own) = {[id |-> rec(i).id, energy |-> rec(i).energy, area |-> rec(i).area,
                                                            time |-> rec(i).time, lasts |-> rec(i).lasts] : i \in ids})>> >>
Clauses(ev) == CASE ev.op = "clip" -> LevelClauses(ev, "event") \o LevelClauses(ev, "group") \o LevelClauses(ev, "flash")
TraceInit == l = 1 /\ pending = {} /\ outline = {} /\ area = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED ovars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, ovars>>
=============================================================================
