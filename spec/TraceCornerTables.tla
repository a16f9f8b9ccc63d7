------------------------- MODULE TraceCornerTables -------------------------
(* Judges recorded footprints.  Results are in units of 1/ev.parts; inflation *)
(* is ev.inflate / ev.parts; a missing footprint is an empty sequence.         *)
EXTENDS CornerTables, TraceBase
VARIABLE l
Delta(ev, k, c, d) == ev.res[k][c][d] - ev.parts * ev.at[k][d]      \* inflated offset, times parts
OffsetOk(ev, k, c, d) ==
  LET v == <<ev.at[k][1] - ev.nadir, ev.at[k][2]>>
      x == Delta(ev, k, c, d)
  IN IF Outside(ev.table, v)
     THEN \E n \in Nearest(ev.table, v) : x = ev.inflate * Off(ev.table, n)[c][d]
     ELSE IF ev.even THEN x = ev.inflate * AffineOff(ev.fields[c][d], v)
          ELSE \E e \in -1..1 : InEnvelope(ev.table, v, c, d, x + e, ev.inflate)   \* x is rounded
Clauses(ev) ==
  LET n == Len(ev.at)
      shaped == Len(ev.res) = n
      given(k) == Len(ev.res[k]) > 0
      whole(k) == Len(ev.res[k]) = 4
      out(k) == Outside(ev.table, <<ev.at[k][1] - ev.nadir, ev.at[k][2]>>)
  IN << <<"one_footprint_per_event", shaped>>,
        <<"table_and_events_unchanged", ev.after = ev.table /\ ev.same>>,
        <<"footprint_wherever_known", shaped => \A k \in 1..n : (ev.extrapolate \/ ~out(k)) => whole(k)>>,
        <<"none_outside", shaped => \A k \in 1..n : (~ev.extrapolate /\ out(k)) => ~given(k)>>,
        <<"event_plus_offsets", shaped => \A k \in 1..n : whole(k) /\ ~out(k) =>
             \A c \in 1..4, d \in 1..2 : OffsetOk(ev, k, c, d)>>,
        <<"nearest_entry_outside", shaped => \A k \in 1..n : whole(k) /\ out(k) =>
             \E m \in Nearest(ev.table, <<ev.at[k][1] - ev.nadir, ev.at[k][2]>>) :
               \A c \in 1..4, d \in 1..2 : Delta(ev, k, c, d) = ev.inflate * Off(ev.table, m)[c][d]>> >>
TraceInit == l = 1 /\ table = <<>> /\ where = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cvars>>
=============================================================================
