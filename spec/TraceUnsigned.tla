--------------------------- MODULE TraceUnsigned ---------------------------
(* Judges recorded decodings of stored integers.                              *)
EXTENDS Unsigned, TraceBase
VARIABLE l
Clauses(ev) ==
  LET n == Len(ev.stored)
      shaped(r) == Len(r) = n
  IN CASE ev.op = "decode" ->
       << <<"one_value_each", shaped(ev.res)>>,
          <<"offset_plus_scale_times_unsigned",
             shaped(ev.res) => \A i \in 1..n : Near(ev.res[i], Scaled(ev.stored[i], ev.scale, ev.offset), 2)>> >>
    [] ev.op = "decode32" ->   \* integers as <<high, low>> 16 bit halves
       << <<"one_value_each", shaped(ev.res)>>,
          <<"offset_plus_scale_times_unsigned", shaped(ev.res) => ev.res = ev.stored>> >>
    [] ev.op = "locations" ->
       << <<"one_value_each", shaped(ev.res.lat) /\ shaped(ev.res.lon)>>,
          <<"latitudes", shaped(ev.res.lat) => \A i \in 1..n : Near(ev.res.lat[i], EventLat(ev.stored[i]), 20)>>,
          <<"longitudes", shaped(ev.res.lon) => \A i \in 1..n : Near(ev.res.lon[i], EventLon(ev.storedlon[i]), 20)>> >>
TraceInit == l = 1 /\ stored = 0 /\ scale = 0 /\ offset = 0 /\ value = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED uvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, uvars>>
=============================================================================
