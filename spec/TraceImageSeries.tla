-------------------------- MODULE TraceImageSeries --------------------------
(* Judges recorded series and aggregates.                                     *)
EXTENDS ImageSeries, TraceBase
VARIABLE l
(* A series opened from files, in the order given.                            *)
SeriesClauses(ev) ==
  LET r == ev.res  fs == ev.files
      same == Len(r.times) = Len(fs)
  IN << <<"one_step_per_file", same /\ Len(r.imgs) = Len(fs)>>,
        <<"labelled_by_start", same => r.times = [k \in 1..Len(fs) |-> fs[k].time]>>,
        <<"data_of_the_file", same => \A k \in 1..Len(fs) : r.imgs[k] = fs[k].img>>,
        <<"coordinates", r.x = ev.x /\ r.y = ev.y>>,
        <<"selected_by_time", \A k \in 1..Len(r.picked) : r.picked[k] = fs[k].img>>,
        <<"coverage_start", r.start = LeastTime(fs)>>,
        <<"coverage_end", r.end = LastEnd(fs)>> >>
(* |got * count - weighted| within a tolerance of got                         *)
MeanNear(got, m) ==
  IF m[1] = 0 \/ m[2] = 0 THEN got = 0
  ELSE LET q == m[1] \div m[2] IN got - q <= 2 /\ q - got <= 1 /\ (q > 0 => got > 0) /\ got >= 0
AggregateClauses(ev) ==
  LET s == ev.series
      whole == ev.range = <<>>
      dt == ev.interval
      rng == IF whole THEN WholeRange(s, dt) ELSE ev.range
      bins == TLCEval(Intervals(rng[1], rng[2], dt))
      fs == TLCEval([b \in DOMAIN bins |-> Members(s, bins[b])])
      got(b) == {k \in DOMAIN ev.res.bins : ev.res.bins[k].left = bins[b][1] /\ ev.res.bins[k].right = bins[b][2]}
      known == \A k \in DOMAIN ev.res.bins : \E b \in DOMAIN bins : k \in got(b)
      once == \A b \in DOMAIN bins : Cardinality(got(b)) = 1 \/ (fs[b] = <<>> /\ got(b) = {})
      cells == 1..ev.cells
      P == SetOf(ev.products)
      every(ps, test(_, _, _, _)) == known /\ once => \A b \in DOMAIN bins : got(b) # {} =>
          LET r == ev.res.bins[CHOOSE k \in got(b) : TRUE]
          IN \A p \in ps \cap P : \A c \in cells : test(b, p, c, r.img[p][c])
      total(b, p, c, v) == v = Total(fs[b], p, c)
      smallest(b, p, c, v) == v = Smallest(fs[b], p, c)
      mean(b, p, c, v) == MeanNear(v, Mean(fs[b], p, c))
      seen == UNION {{k \in DOMAIN s : InInterval(s[k], bins[b])} : b \in DOMAIN bins}
  IN << <<"intervals", known>>,
        <<"each_interval_once", once>>,
        <<"every_frame_counted", whole => seen = DOMAIN s>>,
        <<"sums", every(Summed, total)>>,
        <<"least", every(Least, smallest)>>,
        <<"averages_weighted", every(Averaged, mean)>>,
        <<"coverage", known /\ once /\ ev.res.bins # <<>> =>
             /\ ev.res.start = Min({ev.res.bins[k].left : k \in DOMAIN ev.res.bins})
             /\ ev.res.end = Max({ev.res.bins[k].right : k \in DOMAIN ev.res.bins})>>,
        <<"place", ev.res.place = ev.place>>,
        <<"descriptions_kept", ev.res.described = ev.described>>,
        <<"subpoint_kept", known /\ once => \A b \in DOMAIN bins : fs[b] # <<>> =>
             ev.res.bins[CHOOSE k \in got(b) : TRUE].subpoint = s[CHOOSE k \in DOMAIN s : InInterval(s[k], bins[b])].subpoint>>,
        <<"series_unchanged", ev.after = "same">> >>
Clauses(ev) == CASE ev.op = "series" -> SeriesClauses(ev)
                 [] ev.op = "aggregate" -> AggregateClauses(ev)
TraceInit == l = 1 /\ series = <<>> /\ taken = 0 /\ range = <<>> /\ step = 0 /\ totals = <<>> /\ least = <<>>
             /\ areas = <<>> /\ counted = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED avars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, avars>>
=============================================================================
