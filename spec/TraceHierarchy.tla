--------------------------- MODULE TraceHierarchy ---------------------------
(* Judges recorded calls of the traversal. A session opens a dataset and then *)
(* selects from it or from earlier results, counts, replicates and checks.    *)
EXTENDS Hierarchy, TraceBase
VARIABLES l, sets   \* next event; the datasets of the session so far
tvars == <<l, sets, vars>>

EventClauses(ev, known) ==
  CASE ev.op = "open" -> << <<"opened", TRUE>> >>
    [] ev.op = "select" ->
         SelectionClauses(known[ev.from], ev.level, ev.ids, ev.res)
         \o << <<"source_unchanged", ev.after = known[ev.from]>> >>
    [] ev.op = "count" ->
         LET ds == known[ev.from]
             last == IF ev.to = 0 THEN ev.level + 1 ELSE ev.to
             n == last - ev.level
         IN << <<"one_count_per_generation", Len(ev.res) = n>>,
               <<"children_of_each_record",
                  Len(ev.res) = n => \A i \in 1..n : ev.res[i] = CountChildren(ds, ev.level + i - 1)>>,
               <<"source_unchanged", ev.after = ds>> >>
    [] ev.op = "replicate" ->
         LET ds == known[ev.from]
         IN << <<"own_ancestor_in_row_order", ev.res = Replicated(ds, ev.level, ev.down)>>,
               <<"source_unchanged", ev.after = ds>> >>
    [] ev.op = "describe" -> << <<"one_key_fewer_than_levels", ev.res = ~Described(ev.levels, ev.keys)>> >>
    [] ev.op = "check" ->
         LET ds == known[ev.from]
             n == Len(ds) - 1
             shaped == Len(ev.res.parents) = n /\ Len(ev.res.children) = n
         IN << <<"every_level_reported", shaped>>,
               <<"distinct_parent_count",
                  shaped => \A i \in 1..n : ev.res.parents[i].count = Cardinality(IdsOf(ds[i]))>>,
               <<"distinct_named_parent_count",
                  shaped => \A i \in 1..n : ev.res.children[i].count = Cardinality(ParentsOf(ds[i+1]))>>,
               <<"childless_parents",
                  shaped => \A i \in 1..n : SetOf(ev.res.parents[i].ids) = Childless(ds, i)>>,
               <<"dangling_parents",
                  shaped => \A i \in 1..n : SetOf(ev.res.children[i].ids) = Dangling(ds, i+1)>>,
               <<"bad_counts_match_ids",
                  shaped => \A i \in 1..n :
                     /\ ev.res.parents[i].bad = Len(ev.res.parents[i].ids)
                     /\ ev.res.children[i].bad = Len(ev.res.children[i].ids)>>,
               <<"consistent_iff_no_problem",
                  shaped => ((\A i \in 1..n : ev.res.parents[i].bad = 0 /\ ev.res.children[i].bad = 0)
                             <=> Consistent(ds))>> >>

TraceInit == /\ l = 1 /\ sets = <<>>
             /\ src = <<>> /\ level = 0 /\ want = <<>> /\ pc = "trace" /\ k = 0 /\ out = <<>>
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         known == IF ev.op = "open" THEN <<>> ELSE sets
     IN /\ Report(ev, Judge(ev, Violated(EventClauses(ev, known))))
        /\ sets' = CASE ev.op = "open" -> <<ev.tables>>
                     [] ev.op = "select" /\ ev.err = "" -> Append(known, ev.res)
                     [] OTHER -> known
  /\ l' = l + 1
  /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
