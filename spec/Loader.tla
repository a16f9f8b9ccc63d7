------------------------------- MODULE Loader -------------------------------
(* Loading a GLM L2 LCFA file (glmtools.io.glm.GLMDataset).                   *)
(*                                                                            *)
(* A file holds three tables of records with encoded (integer) values, linked *)
(* by id, and the attributes that say how to decode them:                     *)
(*   flash: id area energy first last pos                                     *)
(*   group: id parent area energy time pos                                    *)
(*   event: id parent energy time pos                                         *)
(* Loading passes through stages, in this order: times, tree, family, areas,  *)
(* energies. pos stands for the position, which loading must not touch.       *)
EXTENDS Integers, Sequences, FiniteSets

FillValue == 65535        \* stored for an energy that is missing
Missing == -5             \* how a missing value is observed
MaxRaw == 65535

SeqMap(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Rows(s) == {s[i] : i \in 1..Len(s)}
Ids(s) == {s[i].id : i \in 1..Len(s)}

(* -- Decoding ---------------------------------------------------------------*)
(* Areas in 1e-4 km2 and energies in 1e-9 nJ; enc = [scale, offset], and for  *)
(* areas also their unit and the code (fill) of one too large to encode. Each *)
(* level has its own, f.areaenc[level] and f.energyenc[level].                *)
Decode(enc, raw) == enc.offset + enc.scale * raw
Signed(raw) == IF raw > 32767 THEN raw - 65536 ELSE raw
(* Milliseconds since the start of the product; stored in steps of 2 ms.      *)
StatedTime(raw, marked) == 2 * (IF marked THEN raw ELSE Signed(raw))
UnsignedTime(raw) == 2 * raw

(* Dates are <<year, month, day, second of day>>.                             *)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i+1)
DateLeq(a, b) == LexLeq(a, b, 1)
PeriodStart == <<2018, 10, 15, 0>>
PeriodEnd == <<2018, 11, 6, 0>>
InPeriod(f) == DateLeq(PeriodStart, f.start) /\ DateLeq(f.end, PeriodEnd)
CorrectsTimes(f, opts) == opts.times /\ InPeriod(f) /\ f.frames
LoadedTime(f, opts, raw) ==
  IF CorrectsTimes(f, opts) THEN UnsignedTime(raw) ELSE StatedTime(raw, f.marked)

(* -- What is kept -----------------------------------------------------------*)
(* Records on a complete flash-group-event chain.                             *)
EventsOfGroup(f, gid) == {e \in Rows(f.event) : e.parent = gid}
GroupsOfFlash(f, fid) == {g \in Rows(f.group) : g.parent = fid}
GoodGroup(f, g) == g.parent \in Ids(f.flash) /\ EventsOfGroup(f, g.id) # {}
GoodFlash(f, fl) == \E g \in GroupsOfFlash(f, fl.id) : GoodGroup(f, g)
GoodEvent(f, e) == \E g \in Rows(f.group) : g.id = e.parent /\ GoodGroup(f, g)
TreeConsistent(f) ==
  /\ \A e \in Rows(f.event) : e.parent \in Ids(f.group)
  /\ \A g \in Rows(f.group) : g.parent \in Ids(f.flash)
  /\ \A g \in Rows(f.group) : EventsOfGroup(f, g.id) # {}
  /\ \A fl \in Rows(f.flash) : GroupsOfFlash(f, fl.id) # {}

KeptFlashes(f, opts) == IF opts.tree THEN {x \in Rows(f.flash) : GoodFlash(f, x)} ELSE Rows(f.flash)
KeptGroups(f, opts) == IF opts.tree THEN {x \in Rows(f.group) : GoodGroup(f, x)} ELSE Rows(f.group)
KeptEvents(f, opts) == IF opts.tree THEN {x \in Rows(f.event) : GoodEvent(f, x)} ELSE Rows(f.event)

(* -- What the values become -------------------------------------------------*)
(* Areas are read as missing when they overflowed.                            *)
LoadedArea(f, opts, level, raw) ==
  IF raw = f.areaenc[level].fill /\ ~opts.area THEN Missing ELSE Decode(f.areaenc[level], raw)
AreaUnit(f, opts, level) == IF opts.area THEN "km2" ELSE f.areaenc[level].unit
EnergyUnit(opts) == IF opts.energy THEN "nJ" ELSE "J"
LoadedEnergy(f, level, raw) == IF raw = FillValue THEN Missing ELSE Decode(f.energyenc[level], raw)
SmallestEnergy(f) == f.energyenc.event.offset + f.energyenc.event.scale
(* Twice the event energy, so that half a step is a whole number.             *)
LoadedEventEnergy2(f, opts, raw) ==
  IF raw = FillValue THEN 2 * Missing
  ELSE IF opts.energy /\ raw = 0 THEN SmallestEnergy(f)
  ELSE 2 * Decode(f.energyenc.event, raw)

(* -- Family information -----------------------------------------------------*)
FlashOfEvent(f, e) == (CHOOSE g \in Rows(f.group) : g.id = e.parent).parent
GroupCount(f, opts, fid) == Cardinality({g \in KeptGroups(f, opts) : g.parent = fid})
EventCountOfGroup(f, opts, gid) == Cardinality({e \in KeptEvents(f, opts) : e.parent = gid})
EventCountOfFlash(f, opts, fid) ==
  Cardinality({e \in KeptEvents(f, opts) : FlashOfEvent(f, e) = fid})

(* -- The stages of loading --------------------------------------------------*)
(* work is the dataset being built; rows carry the index of the file row they *)
(* came from, and times are corrected by re-reading the file row by row, as   *)
(* the code does, which is only right before rows are removed.                *)
VARIABLES file, opts, work, stage
lvars == <<file, opts, work, stage>>

OpenFile(f, o) ==
  /\ file = f /\ opts = o /\ stage = "times"
  /\ work = [event |-> [i \in 1..Len(f.event) |->
                [id |-> f.event[i].id, parent |-> f.event[i].parent, time |-> StatedTime(f.event[i].time, f.marked),
                 from |-> i, flash |-> -1]],
             group |-> [i \in 1..Len(f.group) |->
                [id |-> f.group[i].id, parent |-> f.group[i].parent, from |-> i, nevents |-> -1]],
             flash |-> [i \in 1..Len(f.flash) |->
                [id |-> f.flash[i].id, from |-> i, ngroups |-> -1, nevents |-> -1]]]

CorrectTimes ==
  /\ stage = "times" /\ stage' = "tree"
  /\ work' = IF CorrectsTimes(file, opts)
             THEN [work EXCEPT !.event =
                     [i \in 1..Len(work.event) |->
                        [work.event[i] EXCEPT !.time = UnsignedTime(file.event[i].time)]]]
             ELSE work
  /\ UNCHANGED <<file, opts>>

(* First down to the flashes that groups name, then up from the events left.  *)
RepairTree ==
  /\ stage = "tree" /\ stage' = "family"
  /\ LET needed == opts.tree /\ ~TreeConsistent(file)
         fl1 == SelectSeq(work.flash, LAMBDA x : \E g \in Rows(work.group) : g.parent = x.id)
         gr1 == SelectSeq(work.group, LAMBDA x : x.parent \in Ids(fl1))
         ev == SelectSeq(work.event, LAMBDA x : x.parent \in Ids(gr1))
         gr2 == SelectSeq(gr1, LAMBDA x : \E e \in Rows(ev) : e.parent = x.id)
         fl2 == SelectSeq(fl1, LAMBDA x : \E g \in Rows(gr2) : g.parent = x.id)
     IN work' = IF needed THEN [flash |-> fl2, group |-> gr2, event |-> ev] ELSE work
  /\ UNCHANGED <<file, opts>>

AddFamily ==
  /\ stage = "family" /\ stage' = "loaded"
  /\ LET gparent(gid) == (CHOOSE g \in Rows(work.group) : g.id = gid).parent
         ev == [i \in 1..Len(work.event) |-> [work.event[i] EXCEPT !.flash = gparent(work.event[i].parent)]]
     IN work' = IF ~opts.tree /\ ~TreeConsistent(file) THEN work
                ELSE [event |-> ev,
                 group |-> [i \in 1..Len(work.group) |->
                    [work.group[i] EXCEPT !.nevents = Cardinality({e \in Rows(ev) : e.parent = work.group[i].id})]],
                 flash |-> [i \in 1..Len(work.flash) |->
                    [work.flash[i] EXCEPT
                       !.ngroups = Cardinality({g \in Rows(work.group) : g.parent = work.flash[i].id}),
                       !.nevents = Cardinality({e \in Rows(ev) : e.flash = work.flash[i].id})]]]
  /\ UNCHANGED <<file, opts>>

LoadNext == CorrectTimes \/ RepairTree \/ AddFamily

(* -- Properties of the stages, checked by TLC -------------------------------*)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

ExactlyGoodRecordsKept ==
  (stage = "loaded" /\ opts.tree) =>
    /\ {x.id : x \in Rows(work.flash)} = {x.id : x \in {y \in Rows(file.flash) : GoodFlash(file, y)}}
    /\ {x.id : x \in Rows(work.group)} = {x.id : x \in {y \in Rows(file.group) : GoodGroup(file, y)}}
    /\ {x.id : x \in Rows(work.event)} = {x.id : x \in {y \in Rows(file.event) : GoodEvent(file, y)}}
LoadedTreeConsistent == (stage = "loaded" /\ opts.tree) => TreeConsistent(work)
ConsistentFileUnchanged ==
  (stage = "loaded" /\ TreeConsistent(file)) =>
    /\ Len(work.flash) = Len(file.flash) /\ Len(work.group) = Len(file.group)
    /\ Len(work.event) = Len(file.event)
    /\ \A i \in 1..Len(work.event) : work.event[i].from = i
TimesBelongToTheirRows ==
  stage = "loaded" => \A e \in Rows(work.event) :
     e.time = LoadedTime(file, opts, file.event[e.from].time)
CountsAddUp ==
  (stage = "loaded" /\ (opts.tree \/ TreeConsistent(file))) =>
    /\ Total(SeqMap(work.flash, LAMBDA x : x.ngroups)) = Len(work.group)
    /\ Total(SeqMap(work.flash, LAMBDA x : x.nevents)) = Len(work.event)
    /\ Total(SeqMap(work.group, LAMBDA x : x.nevents)) = Len(work.event)
FamilyMatchesFile ==
  (stage = "loaded" /\ (opts.tree \/ TreeConsistent(file))) =>
    /\ \A e \in Rows(work.event) : e.flash = FlashOfEvent(file, file.event[e.from])
    /\ \A x \in Rows(work.flash) : /\ x.ngroups = GroupCount(file, opts, x.id)
                                   /\ x.nevents = EventCountOfFlash(file, opts, x.id)
    /\ \A x \in Rows(work.group) : x.nevents = EventCountOfGroup(file, opts, x.id)
=============================================================================
