---------------------------- MODULE TraceFilters ----------------------------
(* Judges recorded filters of a loaded dataset. A session loads a dataset and *)
(* filters it repeatedly.                                                     *)
EXTENDS Filters, TraceBase
VARIABLES l, loaded
tvars == <<l, loaded, fvars>>
IdSet(t) == {t[i][1] : i \in 1..Len(t)}
ResultClauses(d, want, r) ==
  << <<"flashes", IdSet(r.flash) = want>>,
     <<"groups_of_the_flashes", IdSet(r.group) = GroupsOf(d, want)>>,
     <<"events_of_the_flashes", IdSet(r.event) = EventsOf(d, want)>>,
     <<"each_once", /\ Cardinality(IdSet(r.flash)) = Len(r.flash)
                    /\ Cardinality(IdSet(r.group)) = Len(r.group)
                    /\ Cardinality(IdSet(r.event)) = Len(r.event)>>,
     <<"values_kept", /\ RowsIn(r.flash) \subseteq RowsIn(d.flash)
                      /\ RowsIn(r.group) \subseteq RowsIn(d.group)
                      /\ RowsIn(r.event) \subseteq RowsIn(d.event)>> >>
Clauses(ev, d) ==
  CASE ev.op = "open" -> << <<"opened", TRUE>> >>
    [] ev.op = "filter" -> ResultClauses(d, Wanted(d, ev.query), ev.res)
                           \o << <<"source_unchanged", ev.after = d>> >>
    [] ev.op = "get" ->
         LET want == {i \in SetOf(ev.ids) : i \in IdSet(d.flash)}
             order == SelectSeq(ev.ids, LAMBDA i : i \in IdSet(d.flash))
         IN ResultClauses(d, want, ev.res)
            \o << <<"in_requested_order", [i \in 1..Len(ev.res.flash) |-> ev.res.flash[i][1]] = order>> >>
TraceInit == /\ l = 1 /\ loaded = <<>> /\ data = <<>> /\ query = <<>> /\ left = {} /\ todo = {}
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l]
                IN /\ Report(ev, Judge(ev, Violated(Clauses(ev, loaded))))
                   /\ loaded' = IF ev.op = "open" THEN ev.data ELSE loaded
             /\ l' = l + 1
             /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
