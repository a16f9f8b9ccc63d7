--------------------------- MODULE TraceCalendar ---------------------------
(* Judges recorded readings of file names.                                    *)
EXTENDS Calendar, TraceBase
VARIABLE l
Clauses(ev) ==
  << <<"environment", ev.res.environment = ev.environment>>,
     <<"product", ev.res.product = ev.product>>,
     <<"platform", ev.res.platform = ev.platform>>,
     <<"start", ev.res.start = TimeOf(ev.start)>>,
     <<"end", ev.res.end = TimeOf(ev.end)>>,
     <<"created", ev.res.created = TimeOf(ev.created)>> >>
TraceInit == l = 1 /\ year = 0 /\ month = 0 /\ day = 0 /\ dayofyear = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cvars>>
=============================================================================
