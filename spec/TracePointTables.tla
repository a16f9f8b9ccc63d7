-------------------------- MODULE TracePointTables --------------------------
(* Judges recorded tables of points.                                          *)
EXTENDS PointTables, TraceBase
VARIABLE l
Gather(chunks, level, part) ==
  LET n == Len(chunks)
      all[k \in 0..n] == IF k = 0 THEN << >> ELSE all[k-1] \o chunks[k][level][part]
  IN all[n]
ReadClauses(ev) ==
  LET F == TLCEval(Chosen(ev.data, ev.query))
      ok(level, part) == LET got == TLCEval(Gather(ev.res, level, part))
                             want == TLCEval(IF part = "events" THEN EventTable(ev.data, F, level) ELSE OwnTable(ev.data, F, level))
                         IN SameRows(got, want)
  IN << <<"flash_events", ok("flash", "events")>>, <<"flash_rows", ok("flash", "own")>>,
        <<"group_events", ok("group", "events")>>, <<"group_rows", ok("group", "own")>>,
        <<"event_events", ok("event", "events")>>, <<"event_rows", ok("event", "own")>> >>
(* A collection of files: each has its tables, found by its time.             *)
CollectClauses(ev) ==
  LET n == Len(ev.files)
      F(k) == Chosen(ev.files[k], ev.query)
      listed == Len(ev.res) = n /\ {ev.res[k].time : k \in 1..Len(ev.res)} = {ev.files[k].time : k \in 1..n}
      at(k) == ev.res[CHOOSE j \in 1..n : ev.res[j].time = ev.files[k].time]
  IN << <<"found_by_time", listed>>,
        <<"events_of_file", listed => \A k \in 1..n : SameRows(at(k).events, EventTable(ev.files[k], F(k), "flash"))>>,
        <<"flashes_of_file", listed => \A k \in 1..n : SameRows(at(k).own, OwnTable(ev.files[k], F(k), "flash"))>> >>
(* The same, cut into windows of time and lassoed.                            *)
InWindow(t, ev, w) == ev.edges[w] <= t /\ t < ev.edges[w+1]
WindowClauses(ev) ==
  LET n == Len(ev.files)  ws == 1..Len(ev.edges)-1
      wanted(k, w, part) == IF part = "events"
         THEN SelectSeq(EventTable(ev.files[k], Chosen(ev.files[k], ev.query), "flash"), LAMBDA r : InWindow(r.time, ev, w) /\ LassoEvent(r, ev.lasso))
         ELSE SelectSeq(OwnTable(ev.files[k], Chosen(ev.files[k], ev.query), "flash"), LAMBDA r : InWindow(r.start, ev, w) /\ LassoFlash(r, ev.lasso))
      all(w, part) == LET s[k \in 0..n] == IF k = 0 THEN << >> ELSE s[k-1] \o wanted(k, w, part) IN s[n]
  IN << <<"windows", Len(ev.res) = Len(ev.edges)-1>>,
        <<"events_in_window", Len(ev.res) = Len(ev.edges)-1 => \A w \in ws : SameRows(ev.res[w].events, all(w, "events"))>>,
        <<"flashes_in_window", Len(ev.res) = Len(ev.edges)-1 => \A w \in ws : SameRows(ev.res[w].own, all(w, "own"))>> >>
Clauses(ev) == CASE ev.op = "read" -> ReadClauses(ev)
                 [] ev.op = "collect" -> CollectClauses(ev)
                 [] ev.op = "windows" -> WindowClauses(ev)
TraceInit == l = 1 /\ data = << >> /\ query = << >> /\ left = {} /\ table = << >>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
=============================================================================
