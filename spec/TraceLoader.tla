---------------------------- MODULE TraceLoader ----------------------------
(* Judges recorded loads of files. Each property looks at its own part of the *)
(* loaded dataset (the environment variable PROP names it).                   *)
EXTENDS Loader, TraceBase
VARIABLE l
Prop == IOEnv.PROP

FileRow(t, id) == t[CHOOSE i \in 1..Len(t) : t[i].id = id]
(* relative precision of single precision floats, and rounding *)
Tol(v) == 2 + AbsI(v) \div 1000000
Close(a, b) == IF b = Missing THEN a = Missing ELSE a # Missing /\ Near(a, b, Tol(b))

(* The loaded rows correspond one to one to the rows expected.                *)
SameIds(res, kept) == {r.id : r \in Rows(res)} = {r.id : r \in kept}
EachOnce(res) == Cardinality(Ids(res)) = Len(res)

TreeClauses(f, o, r) ==
  << <<"flashes_kept", SameIds(r.flash, KeptFlashes(f, o))>>,
     <<"groups_kept", SameIds(r.group, KeptGroups(f, o))>>,
     <<"events_kept", SameIds(r.event, KeptEvents(f, o))>>,
     <<"each_record_once", EachOnce(r.flash) /\ EachOnce(r.group) /\ EachOnce(r.event)>>,
     <<"loaded_tree_consistent", o.tree => TreeConsistent(r)>>,
     <<"consistent_file_in_file_order",
        TreeConsistent(f) => /\ [i \in 1..Len(r.flash) |-> r.flash[i].id] = [i \in 1..Len(f.flash) |-> f.flash[i].id]
                             /\ [i \in 1..Len(r.group) |-> r.group[i].id] = [i \in 1..Len(f.group) |-> f.group[i].id]
                             /\ [i \in 1..Len(r.event) |-> r.event[i].id] = [i \in 1..Len(f.event) |-> f.event[i].id]>>,
     <<"flashes_keep_their_values",
        \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
           LET y == FileRow(f.flash, x.id) IN x.lat = y.lat /\ x.lon = y.lon>>,
     <<"groups_keep_their_values",
        \A x \in Rows(r.group) : x.id \in Ids(f.group) =>
           LET y == FileRow(f.group, x.id) IN x.lat = y.lat /\ x.lon = y.lon /\ x.parent = y.parent>>,
     <<"events_keep_their_values",
        \A x \in Rows(r.event) : x.id \in Ids(f.event) =>
           LET y == FileRow(f.event, x.id) IN x.lat = y.lat /\ x.lon = y.lon /\ x.parent = y.parent>> >>

FamilyClauses(f, o, r) ==
  LET kg == TLCEval(KeptGroups(f, o))
      ke == TLCEval(KeptEvents(f, o))
      flashof == TLCEval([e \in ke |-> FlashOfEvent(f, e)])
  IN
  << <<"event_carries_its_flash",
        \A x \in Rows(r.event) : x.id \in Ids(f.event) /\ x.flash = FlashOfEvent(f, FileRow(f.event, x.id))>>,
     <<"groups_per_flash", \A x \in Rows(r.flash) : x.ngroups = Cardinality({g \in kg : g.parent = x.id})>>,
     <<"events_per_flash", \A x \in Rows(r.flash) : x.nevents = Cardinality({e \in ke : flashof[e] = x.id})>>,
     <<"events_per_group", \A x \in Rows(r.group) : x.nevents = Cardinality({e \in ke : e.parent = x.id})>>,
     <<"counts_add_up",
        /\ SumSeq([i \in 1..Len(r.flash) |-> r.flash[i].ngroups]) = Len(r.group)
        /\ SumSeq([i \in 1..Len(r.flash) |-> r.flash[i].nevents]) = Len(r.event)
        /\ SumSeq([i \in 1..Len(r.group) |-> r.group[i].nevents]) = Len(r.event)>> >>

ValueClauses(f, o, r) ==
  << <<"area_units", r.units.flash_area = AreaUnit(f, o, "flash") /\ r.units.group_area = AreaUnit(f, o, "group")>>,
     <<"energy_units", \A u \in {r.units.flash_energy, r.units.group_energy, r.units.event_energy} : u = EnergyUnit(o)>>,
     <<"flash_areas", \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
           Close(x.area, LoadedArea(f, o, "flash", FileRow(f.flash, x.id).area))>>,
     <<"group_areas", \A x \in Rows(r.group) : x.id \in Ids(f.group) =>
           Close(x.area, LoadedArea(f, o, "group", FileRow(f.group, x.id).area))>>,
     <<"flash_energies", \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
           Close(x.energy, LoadedEnergy(f, "flash", FileRow(f.flash, x.id).energy))>>,
     <<"group_energies", \A x \in Rows(r.group) : x.id \in Ids(f.group) =>
           Close(x.energy, LoadedEnergy(f, "group", FileRow(f.group, x.id).energy))>>,
     <<"event_energies", \A x \in Rows(r.event) : x.id \in Ids(f.event) =>
           LET want == LoadedEventEnergy2(f, o, FileRow(f.event, x.id).energy)
           IN IF want = 2 * Missing THEN x.energy2 = Missing ELSE x.energy2 # Missing /\ Near(x.energy2, want, Tol(want))>> >>

TimeClauses(f, o, r) ==
  << <<"event_times", \A x \in Rows(r.event) : x.id \in Ids(f.event) =>
           x.time = LoadedTime(f, o, FileRow(f.event, x.id).time)>>,
     <<"group_times", \A x \in Rows(r.group) : x.id \in Ids(f.group) =>
           x.time = LoadedTime(f, o, FileRow(f.group, x.id).time)>>,
     <<"flash_first_event_times", \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
           x.first = LoadedTime(f, o, FileRow(f.flash, x.id).first)>>,
     <<"flash_last_event_times", \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
           x.last = LoadedTime(f, o, FileRow(f.flash, x.id).last)>>,
     <<"frame_times", f.frames =>
           /\ \A x \in Rows(r.group) : x.id \in Ids(f.group) =>
                 x.frame = LoadedTime(f, o, FileRow(f.group, x.id).time)
           /\ \A x \in Rows(r.flash) : x.id \in Ids(f.flash) =>
                 /\ x.frame_first = LoadedTime(f, o, FileRow(f.flash, x.id).first)
                 /\ x.frame_last = LoadedTime(f, o, FileRow(f.flash, x.id).last)>>,
     <<"no_row_lost", SameIds(r.event, KeptEvents(f, o))>> >>

(* Energies that are not in joules cannot be changed to nanojoules.          *)
Refused(given, change) == change /\ \E i \in 1..Len(given) : given[i] # "J"
Clauses(ev) ==
  CASE ev.op = "units" -> << <<"other_energy_units_refused", ev.res = Refused(ev.given, ev.change)>> >>
    [] Prop = "L01" -> TreeClauses(ev.file, ev.opts, ev.res)
    [] Prop = "L02" -> FamilyClauses(ev.file, ev.opts, ev.res)
    [] Prop = "L03" -> ValueClauses(ev.file, ev.opts, ev.res)
    [] Prop = "L04" -> TimeClauses(ev.file, ev.opts, ev.res)

TraceInit == /\ l = 1 /\ file = <<>> /\ opts = <<>> /\ work = <<>> /\ stage = "trace"
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1
             /\ UNCHANGED lvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, lvars>>
=============================================================================
