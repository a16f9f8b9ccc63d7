------------------------- MODULE TracePixelLookups -------------------------
(* Judges recorded lookups and loads.                                         *)
EXTENDS PixelLookups, TraceBase
VARIABLE l
(* The table in use: the one built, or the one last saved in the file.        *)
InUse(ev) == IF ev.loaded = "" THEN ev.table ELSE LastSaved(ev.history, ev.loaded)
Where(s) == IF Len(s) = 2 THEN <<s[1], s[2]>> ELSE <<-1, -1>>
Clauses(ev) ==
  CASE ev.op = "ask" ->
         LET t == InUse(ev)  n == Len(ev.at)  shaped == Len(ev.res) = n
         IN << <<"one_answer_per_position", shaped>>,
               <<"known_pixels_only", shaped => \A k \in 1..n : Where(ev.res[k].pixel) \in Pixels(t)>>,
               <<"nearest_pixel", shaped => \A k \in 1..n : Where(ev.res[k].pixel) \in Pixels(t) =>
                    Where(ev.res[k].pixel) \in NearestPixels(t, ev.at[k])>>,
               <<"true_distance", shaped => \A k \in 1..n : Where(ev.res[k].pixel) \in Pixels(t) =>
                    ev.res[k].dist2 = Dist2(Pos(t, Where(ev.res[k].pixel)), ev.at[k])>> >>
    [] ev.op = "read" -> << <<"same_contents", ev.res = InUse(ev)>> >>
TraceInit == l = 1 /\ held = NoTable /\ files = <<>> /\ answer = {} /\ everSaved = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED pvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pvars>>
=============================================================================
