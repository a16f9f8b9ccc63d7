---------------------------- MODULE TraceMeshes ----------------------------
(* Judges recorded lookups, slices and split tables.                          *)
EXTENDS Meshes, TraceBase
VARIABLE l
Cell(x) == <<x.i, x.j>>
NoneTwice(s) == Len(s) = Cardinality({Cell(s[k]) : k \in 1..Len(s)})

(* The cells that the way of limiting the candidates must not leave out.      *)
Sum2(p, k) == FoldLeft(LAMBDA acc, v : acc + v[k], 0, p)
MeanInside(m, c, p) ==
  LET e == Extent(Quad(m, c))  n == Len(p)
  IN n*e.x0 < Sum2(p, 1) /\ Sum2(p, 1) < n*e.x1 /\ n*e.y0 < Sum2(p, 2) /\ Sum2(p, 2) < n*e.y1
Required(ev, p) ==
  CASE ev.limit = "all" -> Cells(ev.mesh)
    [] ev.limit = "box" -> BoxCells(ev.mesh, ev.box)
    [] ev.limit = "centre" -> {c \in Cells(ev.mesh) : MeanInside(ev.mesh, c, p)}
    [] OTHER -> {}

(* The cells that a box does not go beyond: those it overlaps or touches and, *)
(* on a regular mesh, up to two lines of cells around them.                   *)
TouchesBox(e, b) == e.x0 <= b[2] /\ e.x1 >= b[1] /\ e.y0 <= b[4] /\ e.y1 >= b[3]
AroundBox(ev, ext) ==
  LET near == {c \in DOMAIN ext : TouchesBox(ext[c], ev.box)}
      is == {c[1] : c \in near}  js == {c[2] : c \in near}
      within(S, i) == \E lo \in S : lo - 2 <= i /\ i <= lo + 2
  IN IF ev.regular THEN {i \in Rows0(ev.mesh) : within(is, i)} \X {j \in Cols0(ev.mesh) : within(js, j)} ELSE near

(* One sliced polygon r (area2, pieces with share2) of polygon p.             *)
PieceOk(m, p, x) ==
  LET q == Quad(m, Cell(x))  s == Slack(m, Cell(x))
  IN /\ Near(x.share2, ShareOf(m, p, Cell(x)), s)
     /\ Near(Area2(x.poly), x.share2, s)
     /\ \A k \in 1..Len(x.poly) : Within(x.poly[k], q, 2) /\ Within(x.poly[k], p, 2)
SliceClauses(ev) ==
  LET m == ev.mesh
      n == Len(ev.polys)
      shaped == Len(ev.res) = n
      ext == TLCEval(Extents(m))
      indexed(k) == \A y \in 1..Len(ev.res[k].pieces) : Cell(ev.res[k].pieces[y]) \in Cells(m)
      valid == shaped /\ \A k \in 1..n : indexed(k)
  IN << <<"one_answer_per_polygon", shaped>>,
        <<"cells_of_the_mesh", valid>>,
        <<"true_areas", shaped => \A k \in 1..n : Near(ev.res[k].area2, Area2(ev.polys[k]), 2)>>,
        <<"no_cell_twice", shaped => \A k \in 1..n : NoneTwice(ev.res[k].pieces)>>,
        <<"piece_of_its_cell", valid => \A k \in 1..n : \A y \in 1..Len(ev.res[k].pieces) :
             PieceOk(m, ev.polys[k], ev.res[k].pieces[y])>>,
        <<"only_cells_of_the_box", (valid /\ ev.limit = "box") => LET near == TLCEval(AroundBox(ev, ext)) IN
             \A k \in 1..n : \A y \in 1..Len(ev.res[k].pieces) : Cell(ev.res[k].pieces[y]) \in near>>,
        <<"no_overlap_missing", valid => \A k \in 1..n :
             LET got == {Cell(ev.res[k].pieces[y]) : y \in 1..Len(ev.res[k].pieces)}
                 e == TLCEval(Extent(ev.polys[k]))
             IN \A c \in Required(ev, ev.polys[k]) : Apart(e, ext[c]) \/ c \in got \/ ShareOf(m, ev.polys[k], c) <= Slack(m, c)>> >>

(* Lookups: found is a sequence of [i, j, quad].                              *)
LookupClauses(ev) ==
  LET m == ev.mesh
      valid == \A k \in 1..Len(ev.res) : Cell(ev.res[k]) \in Cells(m)
      got == {Cell(ev.res[k]) : k \in 1..Len(ev.res)}
  IN << <<"cells_of_the_mesh", valid>>,
        <<"no_cell_twice", NoneTwice(ev.res)>>,
        <<"corners_of_its_cell", valid => \A k \in 1..Len(ev.res) :
             Len(ev.res[k].quad) = 4 /\ SetOf(ev.res[k].quad) = SetOf(Quad(m, Cell(ev.res[k])))
             /\ Area2(ev.res[k].quad) = Area2(Quad(m, Cell(ev.res[k])))>>,
        <<"region_is_covered", valid =>
             CASE ev.op = "in_box" -> BoxCells(m, ev.box) \subseteq got
               [] ev.op = "nearest" /\ ev.regular -> \A c \in Cells(m) : InBox(m, c, <<ev.at[1], ev.at[1], ev.at[2], ev.at[2]>>) => c \in got
               [] OTHER -> Cardinality(got) = ev.wanted /\ NearestCells(m, ev.at, got)>> >>

(* Split tables: one row per piece, [id, i, j, event2, mesh2, ctr]; event2    *)
(* and mesh2 are the doubled area that the fractions of the event and of the  *)
(* cell stand for.                                                            *)
SplitClauses(ev) ==
  LET m == ev.mesh
      n == Len(ev.ids)
      rows == ev.res
      ext == TLCEval(Extents(m))
      valid == \A k \in 1..Len(rows) : Cell(rows[k]) \in Cells(m) /\ rows[k].id \in SetOf(ev.ids)
      polyof(id) == ev.polys[CHOOSE k \in 1..n : ev.ids[k] = id]
      got == TLCEval({<<rows[k].id, Cell(rows[k])>> : k \in 1..Len(rows)})
  IN << <<"own_event_and_cell", valid>>,
        <<"one_row_per_piece", Cardinality(got) = Len(rows) /\ Len(rows) = ev.pieces>>,
        <<"event_fraction", valid => \A k \in 1..Len(rows) :
             Near(rows[k].event2, ShareOf(m, polyof(rows[k].id), Cell(rows[k])), Slack(m, Cell(rows[k])))>>,
        <<"mesh_fraction", valid => \A k \in 1..Len(rows) :
             Near(rows[k].mesh2, ShareOf(m, polyof(rows[k].id), Cell(rows[k])), Slack(m, Cell(rows[k])))>>,
        <<"position_in_the_piece", valid => \A k \in 1..Len(rows) :
             Within(rows[k].ctr, Quad(m, Cell(rows[k])), 2) /\ Within(rows[k].ctr, polyof(rows[k].id), 2)>>,
        <<"no_piece_missing", valid => \A k \in 1..n : LET e == TLCEval(Extent(ev.polys[k])) IN \A c \in Cells(m) :
             Apart(e, ext[c]) \/ <<ev.ids[k], c>> \in got \/ ShareOf(m, ev.polys[k], c) <= Slack(m, c)>> >>

(* Properties replicated to the pieces: rows of [id, frac, values, weighted]; *)
(* fractions are multiples of 1/ev.denom, so that all is exact.               *)
Owner(ev, id) == CHOOSE k \in 1..Len(ev.ids) : ev.ids[k] = id
ReplicateClauses(ev) ==
  LET rows == ev.res
      shaped == Len(rows) = Len(ev.rows)
  IN << <<"one_row_per_piece", shaped>>,
        <<"properties_of_its_event", shaped => \A k \in 1..Len(rows) :
             rows[k].values = ev.values[Owner(ev, ev.rows[k].id)]>>,
        <<"weighted_by_fraction", shaped => \A k \in 1..Len(rows) :
             rows[k].weighted = ev.energy[Owner(ev, ev.rows[k].id)] * ev.rows[k].frac>>,
        <<"sums_to_event_total", shaped => \A e \in 1..Len(ev.ids) :
             LET mine == SelectSeq([k \in 1..Len(rows) |-> k], LAMBDA k : ev.rows[k].id = ev.ids[e])
                 parts == [k \in 1..Len(mine) |-> rows[mine[k]].weighted]
                 fracs == [k \in 1..Len(mine) |-> ev.rows[mine[k]].frac]
             IN SumSeq(fracs) = ev.denom => SumSeq(parts) = ev.energy[e] * ev.denom>> >>

Clauses(ev) == CASE ev.op = "slice" -> SliceClauses(ev)
                 [] ev.op \in {"in_box", "nearest"} -> LookupClauses(ev)
                 [] ev.op = "split" -> SplitClauses(ev)
                 [] ev.op = "replicate" -> ReplicateClauses(ev)
TraceInit == l = 1 /\ mesh = <<>> /\ poly = <<>> /\ todo = {} /\ shares = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mvars>>
=============================================================================
