---------------------------- MODULE TraceUnions ----------------------------
(* Judges recorded unions, by sample points and, for polygons on a grid, by   *)
(* the area covered.                                                          *)
EXTENDS Unions, TraceBase
VARIABLE l
Clauses(ev) ==
  LET judged == {k \in 1..Len(ev.samples) : AwayFromEdges(ev.polys, ev.samples[k], 3)}
  IN << <<"nothing_lost", \A k \in judged :
            EnclosedBySome(ev.polys, ev.samples[k]) => EnclosedByOutlines(ev.res, ev.samples[k])>>,
        <<"nothing_added", \A k \in judged :
            EnclosedByOutlines(ev.res, ev.samples[k]) => EnclosedBySome(ev.polys, ev.samples[k])>>,
        <<"covered_area", ev.step > 0 =>
            AbsI(SumArea2(ev.res)) = 2 * ev.step * ev.step * Cardinality(CoveredCells(ev.polys, ev.step, ev.cells))>> >>
TraceInit == l = 1 /\ given = <<>> /\ joined = {} /\ covered = {}
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED uvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, uvars>>
=============================================================================
