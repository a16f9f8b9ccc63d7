------------------------------ MODULE Listing ------------------------------
(* Text listings of flashes, groups and events                                *)
(* (glmtools.io.convert_lcfa). A line is [kind, id, parent, values]; flashes  *)
(* have parent 0. Lines of kind "other" are not records.                      *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"flash", "group", "event"}
Records(lines, kind) == SelectSeq(lines, LAMBDA r : r.kind = kind)
(* The rows of the converted tables.                                          *)
Row(r) == <<r.id, r.parent>> \o r.values
Rows(lines, kind) == LET s == Records(lines, kind) IN [i \in 1..Len(s) |-> Row(s[i])]

(* Selection of flashes by id from the converted dataset.                     *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
FlashesOf(lines, ids) == SelectSeq(Rows(lines, "flash"), LAMBDA r : InSeq(r[1], ids))
GroupsOf(lines, ids) == SelectSeq(Rows(lines, "group"), LAMBDA r : InSeq(r[2], ids))
EventsOf(lines, ids) ==
  LET gs == GroupsOf(lines, ids)
  IN SelectSeq(Rows(lines, "event"), LAMBDA r : \E i \in 1..Len(gs) : gs[i][1] = r[2])

(* The flash of every event, and the numbers of groups of every flash and of  *)
(* events of every group.                                                     *)
FlashOfEvents(lines) ==
  LET gs == Rows(lines, "group") es == Rows(lines, "event")
  IN [i \in 1..Len(es) |-> gs[CHOOSE k \in 1..Len(gs) : gs[k][1] = es[i][2]][2]]
CountsOf(lines, kind, below) ==
  LET ps == Rows(lines, kind) cs == Rows(lines, below)
  IN [i \in 1..Len(ps) |-> Len(SelectSeq(cs, LAMBDA r : r[2] = ps[i][1]))]

(* A reader that takes the lines one by one.                                  *)
VARIABLES listing, at, tables
rvars == <<listing, at, tables>>
Start == at = 0 /\ tables = [k \in Kinds |-> <<>>]
ReadLine ==
  /\ at < Len(listing)
  /\ at' = at + 1
  /\ LET r == listing[at+1]
     IN tables' = IF r.kind \in Kinds THEN [tables EXCEPT ![r.kind] = Append(@, Row(r))] ELSE tables
  /\ UNCHANGED listing
Progress == \A k \in Kinds : tables[k] = Rows(SubSeq(listing, 1, at), k)
NothingLost == Len(tables["flash"]) + Len(tables["group"]) + Len(tables["event"])
               = Cardinality({i \in 1..at : listing[i].kind \in Kinds})
=============================================================================
