--------------------------- MODULE TraceGridding ---------------------------
(* Judges recorded chunks and grids.                                          *)
EXTENDS Gridding, TraceBase
VARIABLE l
Ids(t) == {t[k].id : k \in Indices(t)}
RowCell(r) == <<r.i, r.j>>
Rows(res) == FoldLeft(LAMBDA acc, ch : acc \o ch.rows, <<>>, res)
Parents(res, level) == FoldLeft(LAMBDA acc, ch : acc \o ch[level], <<>>, res)
(* Values are rounded by the clipping and to single precision.                *)
(* Cut points of slanted edges are also rounded to units.                     *)
Tol(ev, p, c, f) == p[c].near[f] * (IF ev.exact THEN 4 ELSE 4 + Ratio(Slack(ev.mesh, c), p[c].least)) + 6
Got(rows, c, f) == FoldLeft(LAMBDA acc, r : IF RowCell(r) = c THEN acc + r[f] ELSE acc, 0, rows)
MinAt(rows, c) == {rows[k].minarea : k \in {j \in Indices(rows) : RowCell(rows[j]) = c}}
Close2(ev, f, rows, p, c) == Near(Got(rows, c, f), p[c][f], Tol(ev, p, c, f))
ChunkClauses(ev) ==
  LET d == ev.data  m == ev.mesh  F == Ids(d.flash)
      rows == Rows(ev.res)
      valid == \A k \in Indices(rows) : RowCell(rows[k]) \in Cells(m)
      p == TLCEval([c \in Cells(m) |-> Product(d, F, m, c)])
      hitloc == TLCEval({L \in Used(d, F) : \E c \in Cells(m) : Close(d, m, L, c) /\ ShareOf(m, d.loc[L], c) > Slack(m, c)})
      hit == {k \in Indices(d.event) : d.event[k].loc \in hitloc}
      fl == Parents(ev.res, "flash")  gr == Parents(ev.res, "group")
      wanted(level) == IF ev.target THEN {d.event[k][level] : k \in hit} ELSE Ids(d[level])
      ids(t) == {t[k].id : k \in Indices(t)}
      mine(t, x) == CHOOSE k \in Indices(t) : t[k].id = x
  IN << <<"cells_of_the_grid", valid>>,
        <<"cell_once_per_chunk", \A k \in Indices(ev.res) :
             Cardinality({RowCell(ev.res[k].rows[j]) : j \in Indices(ev.res[k].rows)}) = Len(ev.res[k].rows)>>,
        <<"place_in_its_cell", valid => \A k \in Indices(rows) :
             LET e == Extent(Quad(m, RowCell(rows[k])))
             IN e.x0 - 2 <= rows[k].x /\ rows[k].x <= e.x1 + 2 /\ e.y0 - 2 <= rows[k].y /\ rows[k].y <= e.y1 + 2>>,
        <<"energy_by_event_fraction", valid => \A c \in Cells(m) : Close2(ev, "energy", rows, p, c)>>,
        <<"events_by_cell_fraction", valid => \A c \in Cells(m) : Close2(ev, "count", rows, p, c)>>,
        <<"flashes_by_cell_fraction", valid => \A c \in Cells(m) : Close2(ev, "flashes", rows, p, c)>>,
        <<"groups_by_cell_fraction", valid => \A c \in Cells(m) : Close2(ev, "groups", rows, p, c)>>,
        <<"flash_area_by_cell_fraction", valid => \A c \in Cells(m) : Close2(ev, "flasharea", rows, p, c)>>,
        <<"group_area_by_cell_fraction", valid => \A c \in Cells(m) : Close2(ev, "grouparea", rows, p, c)>>,
        <<"fraction_covered", (valid /\ Len(ev.res) = 1) => \A c \in Cells(m) : Close2(ev, "frac", rows, p, c)>>,
        <<"least_area_unweighted", valid => \A c \in Cells(m) :
             LET got == MinAt(rows, c)
             IN /\ got # {} => LeastOf(got) \in p[c].maybe
                /\ \A s \in p[c].sure : \E g \in got : g <= s>>,
        <<"nothing_from_afar", valid => \A k \in Indices(rows) : p[RowCell(rows[k])].maybe # {}>>,
        <<"flashes_once", Len(fl) = Cardinality(ids(fl)) /\ wanted("flash") \subseteq ids(fl) /\ ids(fl) \subseteq Ids(d.flash)>>,
        <<"groups_once", Len(gr) = Cardinality(ids(gr)) /\ wanted("group") \subseteq ids(gr) /\ ids(gr) \subseteq Ids(d.group)>>,
        <<"flash_values", ids(fl) \subseteq Ids(d.flash) => \A k \in Indices(fl) : fl[k] = d.flash[mine(d.flash, fl[k].id)]>>,
        <<"group_values", ids(gr) \subseteq Ids(d.group) => \A k \in Indices(gr) : gr[k] = d.group[mine(d.group, gr[k].id)]>> >>
Clauses(ev) == CASE ev.op = "chunks" -> ChunkClauses(ev)
TraceInit == l = 1 /\ mesh = <<>> /\ poly = <<>> /\ todo = {} /\ shares = <<>> /\ data = <<>> /\ left = {} /\ grid = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED <<gvars, mvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, gvars, mvars>>
=============================================================================
