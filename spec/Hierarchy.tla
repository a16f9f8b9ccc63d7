----------------------------- MODULE Hierarchy -----------------------------
(* Parent/child datasets and their traversal (glmtools.io.traversal).         *)
(*                                                                            *)
(* A dataset is a sequence of tables, the top level first. A table is a       *)
(* sequence of rows <<id, parent id, value>>; parent ids of the top level are *)
(* not used. Links are by id, so a parent id may name nothing (an orphan) and *)
(* a record may have no children.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RowId(r) == r[1]
RowParent(r) == r[2]
IdsOf(t) == {t[i][1] : i \in 1..Len(t)}
ParentsOf(t) == {t[i][2] : i \in 1..Len(t)}
RowsOf(t) == {t[i] : i \in 1..Len(t)}
Multiplicity(t, r) == Cardinality({i \in 1..Len(t) : t[i] = r})

Flatten(ss) == FlattenSeq(ss)

Where(t, Test(_)) == SelectSeq(t, Test)
WithId(t, id) == LET T(r) == r[1] = id IN SelectSeq(t, T)
WithParent(t, id) == LET T(r) == r[2] = id IN SelectSeq(t, T)

(* -- What a selection means -------------------------------------------------*)
(* The rows at level k that belong to a selection of ids at a level.          *)
RECURSIVE Kept(_, _, _, _)
Kept(ds, level, ids, k) ==
  IF k = level THEN {r \in RowsOf(ds[k]) : r[1] \in ids}
  ELSE IF k > level
    THEN LET up == {r[1] : r \in Kept(ds, level, ids, k-1)}
         IN {r \in RowsOf(ds[k]) : r[2] \in up}
    ELSE LET down == {r[2] : r \in Kept(ds, level, ids, k+1)}
         IN {r \in RowsOf(ds[k]) : r[1] \in down}

Requested(ds, level, ids) == Flatten([i \in 1..Len(ids) |-> WithId(ds[level], ids[i])])
NoRepeats(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

(* out is a correct result of selecting ids at level from ds.                 *)
SelectionClauses(ds, level, ids, out) ==
  LET want == {ids[i] : i \in 1..Len(ids)} IN
  << <<"levels", Len(out) = Len(ds)>>,
     <<"requested_rows_in_requested_order",
        Len(out) = Len(ds) => out[level] = Requested(ds, level, ids)>>,
     <<"all_and_only_descendants",
        Len(out) = Len(ds) => \A k \in level+1..Len(ds) : RowsOf(out[k]) = Kept(ds, level, want, k)>>,
     <<"descendants_once",
        (Len(out) = Len(ds) /\ NoRepeats(ids)) => \A k \in level+1..Len(ds) : NoRepeats(out[k])>>,
     <<"all_and_only_ancestors",
        Len(out) = Len(ds) => \A k \in 1..level-1 : RowsOf(out[k]) = Kept(ds, level, want, k)>>,
     <<"ancestors_once",
        Len(out) = Len(ds) => \A k \in 1..level-1 : NoRepeats(out[k])>> >>

(* -- Counting, replicating and checking -------------------------------------*)
CountChildren(ds, k) == [i \in 1..Len(ds[k]) |-> Len(WithParent(ds[k+1], ds[k][i][1]))]

Closed(ds) == \A k \in 2..Len(ds) : ParentsOf(ds[k]) \subseteq IdsOf(ds[k-1])

RECURSIVE Ancestor(_, _, _, _)
(* the id of the ancestor at level k of a row at level from > k *)
Ancestor(ds, k, from, r) ==
  IF from = k+1 THEN r[2]
  ELSE Ancestor(ds, k, from-1, WithId(ds[from-1], r[2])[1])

Replicated(ds, k, from) == [i \in 1..Len(ds[from]) |-> Ancestor(ds, k, from, ds[from][i])]

Childless(ds, k) == IdsOf(ds[k]) \ ParentsOf(ds[k+1])
Dangling(ds, k) == ParentsOf(ds[k]) \ IdsOf(ds[k-1])
Consistent(ds) == /\ Closed(ds)
                  /\ \A k \in 1..Len(ds)-1 : Childless(ds, k) = {}

(* Every level but the first names its parents.                               *)
Described(levels, keys) == keys = levels - 1

(* -- The traversal as the code performs it ----------------------------------*)
(* One descent from the selected level, then one ascent. TLC checks that this *)
(* leaves exactly what a selection means.                                     *)
VARIABLES src,     \* the source dataset
          level, want,   \* the request in progress
          pc, k, out     \* phase, level being pruned, dataset being built

vars == <<src, level, want, pc, k, out>>

Idle(ds) == /\ src = ds /\ level = 1 /\ want = <<>> /\ pc = "idle" /\ k = 1 /\ out = ds

Request(lv, ids) ==
  /\ pc = "idle"
  /\ level' = lv /\ want' = ids
  /\ out' = [src EXCEPT ![lv] = Requested(src, lv, ids)]
  /\ pc' = "descend" /\ k' = lv + 1
  /\ UNCHANGED src

Descend ==
  /\ pc = "descend"
  /\ IF k > Len(src)
     THEN pc' = "ascend" /\ k' = level - 1 /\ UNCHANGED out
     ELSE /\ out' = [out EXCEPT ![k] = Flatten([i \in 1..Len(out[k-1]) |-> WithParent(src[k], out[k-1][i][1])])]
          /\ k' = k + 1 /\ pc' = pc
  /\ UNCHANGED <<src, level, want>>

Ascend ==
  /\ pc = "ascend"
  /\ IF k = 0
     THEN pc' = "done" /\ UNCHANGED <<out, k>>
     ELSE /\ out' = [out EXCEPT ![k] = LET T(r) == r[1] \in ParentsOf(out[k+1]) IN SelectSeq(src[k], T)]
          /\ k' = k - 1 /\ pc' = pc
  /\ UNCHANGED <<src, level, want>>

(* Make the result the source of the next selection; ids identify records, so *)
(* not a result in which rows were repeated.                                  *)
Continue ==
  /\ pc = "done" /\ NoRepeats(want)
  /\ src' = out /\ pc' = "idle" /\ k' = 1 /\ level' = 1 /\ want' = <<>>
  /\ UNCHANGED out

SelectionCorrect ==
  pc = "done" => \A i \in 1..Len(SelectionClauses(src, level, want, out)) :
                    SelectionClauses(src, level, want, out)[i][2]
(* A selection never creates an orphan out of a row that had its parent.      *)
NoNewOrphans ==
  pc = "done" => \A j \in 2..Len(src) : Dangling(out, j) \subseteq Dangling(src, j)
ConsistentStaysClosed == (pc = "done" /\ Consistent(src)) => Closed(out)
(* Selecting everything that is left again changes nothing below that level.  *)
Idempotent ==
  (pc = "done" /\ NoRepeats(want)) =>
    \A j \in level+1..Len(src) :
      RowsOf(out[j]) = Kept(out, level, IdsOf(out[level]), j)
=============================================================================
