------------------------------ MODULE MCLoader ------------------------------
EXTENDS Loader, TLC, Json
CONSTANTS NF, NG, NE
(* Every set of links over NF flashes, NG groups and NE events: a group or    *)
(* event is absent (-1) or names a parent, possibly one that is not there.    *)
Raw == {0, 40000}
FlashSets == SUBSET (1..NF)
GroupLinks == [1..NG -> (-1)..NF+1]
EventLinks == [1..NE -> (-1)..NG+1]
Seqq(S) == SelectSeq([i \in 1..9 |-> i], LAMBDA i : i \in S)
Flashes(S) == [i \in 1..Cardinality(S) |-> [id |-> Seqq(S)[i], time |-> 0]]
Linked(f) == LET s == Seqq({i \in DOMAIN f : f[i] >= 0})
             IN [i \in 1..Len(s) |-> [id |-> s[i], parent |-> f[s[i]], time |-> IF s[i] % 2 = 0 THEN 0 ELSE 40000]]
FileOf(S, g, e, period, marked) ==
  [flash |-> Flashes(S), group |-> Linked(g), event |-> Linked(e), frames |-> TRUE, marked |-> marked,
   start |-> IF period THEN <<2018, 10, 20, 0>> ELSE <<2018, 11, 6, 1>>,
   end |-> IF period THEN <<2018, 10, 20, 20>> ELSE <<2018, 11, 6, 21>>]
Init == \E S \in FlashSets, g \in GroupLinks, e \in EventLinks, p \in BOOLEAN, m \in BOOLEAN, t \in BOOLEAN :
          OpenFile(FileOf(S, g, e, p, m), [times |-> TRUE, tree |-> t])
Next == LoadNext
Spec == Init /\ [][Next]_lvars
(* the link structures, for replay *)
GenInit == \E S \in FlashSets, g \in GroupLinks, e \in EventLinks :
          OpenFile(FileOf(S, g, e, FALSE, TRUE), [times |-> TRUE, tree |-> TRUE])
GenNext == FALSE /\ UNCHANGED lvars
Emit == stage = "times" => PrintT("GEN " \o ToJson([flash |-> [i \in 1..Len(file.flash) |-> file.flash[i].id],
    group |-> [i \in 1..Len(file.group) |-> <<file.group[i].id, file.group[i].parent>>],
    event |-> [i \in 1..Len(file.event) |-> <<file.event[i].id, file.event[i].parent>>]]))
=============================================================================
