----------------------------- MODULE TracePlots -----------------------------
(* Judges recorded plots. The points of a plotted flash come in sets, each    *)
(* with its positions in both units used, wide and fine, and its energies.    *)
EXTENDS Plots, TraceBase
VARIABLE l
With(places, energies) == IF Len(places) # Len(energies) THEN << >>
  ELSE [k \in Rows(places) |-> <<places[k][1], places[k][2], energies[k]>>]
FlashClauses(ev) ==
  LET sets == ev.res.sets  ks == Rows(sets)
      groups == TLCEval({k \in ks : SameBag(With(sets[k].wide, sets[k].energy), Groups(ev.data, ev.id))})
      events == TLCEval({k \in ks : SameBag(With(sets[k].fine, sets[k].energy), Events(ev.data, ev.id))})
      flash == TLCEval({k \in ks : SameBag(sets[k].wide, Places(TheFlash(ev.data, ev.id)))})
      r == TheFlash(ev.data, ev.id)[1]
  IN << <<"groups_shown", groups # {}>>, <<"events_shown", events # {}>>, <<"flash_shown", flash # {}>>,
        <<"nothing_else", Len(sets) = 3 /\ (\E p \in [1..3 -> ks] : p[1] # p[2] /\ p[1] # p[3] /\ p[2] # p[3]
             /\ p[1] \in groups /\ p[2] \in events /\ p[3] \in flash)>>,
        <<"colours_of_energies", \A k \in groups \cup events : sets[k].scale = Scales["total_energy"]>>,
        <<"flash_named", ev.res.id = ev.id>>,
        <<"times_named", ev.res.times = <<r.start, r.start + r.lasts>> >>,
        <<"axes", ev.res.axes = 1>> >>
Missing(c) == Cardinality({<<f, t, r, k>> \in Rows(c) \X Rows(c[1]) \X Rows(c[1][1]) \X Rows(c[1][1][1]) : c[f][t][r][k] < 0})
GridClauses(ev) ==
  LET n == Len(ev.fields)  got == ev.res.panels
      want(k) == Panel(ev.cube, ev.fields, ev.names, k, ev.time)
      all(p(_, _)) == Len(got) = n => \A k \in 1..n : p(got[k], want(k))
  IN << <<"panels", Len(got) = n>>,
        <<"values", all(LAMBDA g, w : g.shown = w.shown)>>,
        <<"field_named", all(LAMBDA g, w : g.field = w.field /\ g.unit = w.unit)>>,
        <<"largest_named", all(LAMBDA g, w : g.top = w.top)>>,
        <<"time_named", all(LAMBDA g, w : g.time = w.time)>>,
        <<"letters", all(LAMBDA g, w : g.letter = w.letter)>>,
        <<"whole_grid_visible", all(LAMBDA g, w : g.covers = 1)>>,
        <<"colours_of_the_field", all(LAMBDA g, w : g.scale = w.scale)>>,
        <<"places", Len(got) = n => \A k \in 1..n : got[k].place = <<ev.shape[1], ev.shape[2], k>> >>,
        <<"panels_move_together", \A k \in Rows(ev.res.moved) : ev.res.moved[k] = 1>>,
        <<"projection", all(LAMBDA g, w : g.proj = ev.proj)>>,
        <<"colour_bars", ev.res.bars = [k \in 1..n |-> k]>>,
        <<"data_untouched", ev.res.missing = Missing(ev.cube)>> >>
Clauses(ev) == CASE ev.op = "flash" -> FlashClauses(ev)
                 [] ev.op = "grid" -> GridClauses(ev)
TraceInit == l = 1 /\ cube = << >> /\ fields = << >> /\ frame = 0 /\ panels = << >>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
=============================================================================
