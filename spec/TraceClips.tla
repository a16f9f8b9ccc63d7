----------------------------- MODULE TraceClips -----------------------------
(* Judges recorded clippings by sample points and, for polygons on a grid, by *)
(* the area left; areas; and lines and cells of meshes.                       *)
EXTENDS Clips, TraceBase
VARIABLE l
ClipClauses(ev) ==
  LET r == ev.res
      whole == Len(r.counts) = Len(ev.polys) /\ Before(r.counts, Len(r.counts) + 1) = Len(r.pieces)
               /\ \A k \in 1..Len(r.counts) : r.counts[k] >= 0
      pieces == IF whole THEN TLCEval([k \in 1..Len(ev.polys) |-> PiecesOf(r.pieces, r.counts, k)]) ELSE <<>>
      judged == TLCEval({v \in 1..Len(ev.samples) : AwayFrom(ev.polys, ev.samples[v], 3) /\ ~NearEdge(ev.samples[v], ev.by, 3)})
  IN << <<"one_count_each", whole>>,
        <<"nothing_lost", whole => \A k \in 1..Len(ev.polys) : \A v \in judged :
             Common(ev.polys[k], ev.by, ev.samples[v]) => EnclosedBySome(pieces[k], ev.samples[v])>>,
        <<"nothing_added", whole => \A k \in 1..Len(ev.polys) : \A v \in judged :
             EnclosedBySome(pieces[k], ev.samples[v]) => Common(ev.polys[k], ev.by, ev.samples[v])>>,
        <<"area_left", (whole /\ ev.step > 0) => \A k \in 1..Len(ev.polys) :
             SumAreas2(pieces[k]) = 2 * ev.step * ev.step *
               Cardinality(CellsIn(ev.polys[k], ev.step, ev.cells) \cap CellsIn(ev.by, ev.step, ev.cells))>>,
        <<"given_unchanged", r.after = <<ev.polys, ev.by>> >> >>
AreaClauses(ev) ==
  << <<"one_at_a_time", ev.res.single = [k \in 1..Len(ev.polys) |-> SignedArea2(ev.polys[k])]>>,
     <<"many_at_once", ev.res.many = [k \in 1..Len(ev.polys) |-> SignedArea2(ev.polys[k])]>> >>
MeshClauses(ev) ==
  << <<"lines_along", ev.res.along = LinesAlong(ev.mesh)>>,
     <<"lines_across", ev.res.across = LinesAcross(ev.mesh)>>,
     <<"cells", ev.res.cells = CellsOf(ev.mesh)>> >>
Clauses(ev) == CASE ev.op = "clip" -> ClipClauses(ev)
                 [] ev.op = "area" -> AreaClauses(ev)
                 [] ev.op = "mesh" -> MeshClauses(ev)
TraceInit == l = 1 /\ given = <<>> /\ by = <<>> /\ done = <<>> /\ left = {}
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED clvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, clvars>>
=============================================================================
