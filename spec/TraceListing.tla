---------------------------- MODULE TraceListing ----------------------------
(* Judges recorded conversions of listings.                                   *)
EXTENDS Listing, TraceBase
VARIABLE l
SameRows(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i])
Clauses(ev) ==
  CASE ev.op = "convert" ->
       << <<"flashes", SameRows(ev.res.flash, Rows(ev.lines, "flash"))>>,
          <<"groups", SameRows(ev.res.group, Rows(ev.lines, "group"))>>,
          <<"events", SameRows(ev.res.event, Rows(ev.lines, "event"))>> >>
    [] ev.op = "select" ->
       << <<"selected_flashes", SetOf(ev.res.flash) = SetOf(FlashesOf(ev.lines, ev.ids))>>,
          <<"their_groups", SetOf(ev.res.group) = SetOf(GroupsOf(ev.lines, ev.ids))
                            /\ Len(ev.res.group) = Len(GroupsOf(ev.lines, ev.ids))>>,
          <<"their_events", SetOf(ev.res.event) = SetOf(EventsOf(ev.lines, ev.ids))
                            /\ Len(ev.res.event) = Len(EventsOf(ev.lines, ev.ids))>> >>
    [] ev.op = "ancestors" ->
       << <<"flash_of_each_event", SameRows(ev.res.flash, FlashOfEvents(ev.lines))>>,
          <<"child_counts", /\ Len(ev.res.counts) = 2
                            /\ SameRows(ev.res.counts[1], CountsOf(ev.lines, "flash", "group"))
                            /\ SameRows(ev.res.counts[2], CountsOf(ev.lines, "group", "event"))>> >>
TraceInit == l = 1 /\ listing = <<>> /\ Start
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, rvars>>
=============================================================================
