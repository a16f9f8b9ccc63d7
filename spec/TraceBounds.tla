----------------------------- MODULE TraceBounds -----------------------------
(* Judges the bounds reported for loaded files.                               *)
EXTENDS Bounds, TraceBase
VARIABLE l
Clauses(ev) ==
  << <<"longitudes", ev.res[1] = BoundsOf(ev.events)[1]>>,
     <<"latitudes", ev.res[2] = BoundsOf(ev.events)[2]>>,
     <<"holds_all", \A i \in 1..Len(ev.events) : Holds(ev.res, ev.events[i])>> >>
TraceInit == l = 1 /\ events = <<>> /\ seen = {} /\ box = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED bvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bvars>>
=============================================================================
