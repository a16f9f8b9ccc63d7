------------------------------ MODULE EventLut ------------------------------
(* The event location table (glmtools.io.glm.get_lutevents): events are       *)
(* gathered by discretized position.                                          *)
(*                                                                            *)
(* data: event <<group, flash, x, y, energy>>, flash <<id, area>>,            *)
(*       group <<id, area>>; step, xmin, ymin in the units of x and y.        *)
EXTENDS Integers, Sequences, FiniteSets

CellOf(d, e) == << (e[3] - d.xmin) \div d.step, (e[4] - d.ymin) \div d.step >>
Cells(d) == {CellOf(d, d.event[i]) : i \in 1..Len(d.event)}
(* The low corner of a cell; sums of positions are taken from there, which    *)
(* keeps them small.                                                          *)
Corner(d, c) == << d.xmin + c[1]*d.step, d.ymin + c[2]*d.step >>
Inside(d, e, k) == e[2+k] - Corner(d, CellOf(d, e))[k]
At(d, c) == {i \in 1..Len(d.event) : CellOf(d, d.event[i]) = c}

RECURSIVE AddUp(_, _)
(* the sum of f over a set of indices *)
AddUp(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + AddUp(S \ {i}, f)
Column(t, k) == [i \in 1..Len(t) |-> t[i][k]]
Smallest(S) == CHOOSE m \in S : \A n \in S : m <= n

FlashesAt(d, c) == {d.event[i][2] : i \in At(d, c)}
GroupsAt(d, c) == {d.event[i][1] : i \in At(d, c)}
AreaSum(t, ids) == AddUp({i \in 1..Len(t) : t[i][1] \in ids}, Column(t, 2))
Entry(d, c) ==
  [count |-> Cardinality(At(d, c)),
   energy |-> AddUp(At(d, c), Column(d.event, 5)),
   corner |-> Corner(d, c),
   xsum |-> AddUp(At(d, c), [i \in 1..Len(d.event) |-> Inside(d, d.event[i], 1)]),
   ysum |-> AddUp(At(d, c), [i \in 1..Len(d.event) |-> Inside(d, d.event[i], 2)]),
   flashes |-> Cardinality(FlashesAt(d, c)),
   groups |-> Cardinality(GroupsAt(d, c)),
   flasharea |-> AreaSum(d.flash, FlashesAt(d, c)),
   grouparea |-> AreaSum(d.group, GroupsAt(d, c)),
   minarea |-> Smallest({d.flash[i][2] : i \in {j \in 1..Len(d.flash) : d.flash[j][1] \in FlashesAt(d, c)}})]

(* -- Building the table one event at a time, in any order --------------------*)
VARIABLES ds, left, table
evars == <<ds, left, table>>
Start(d) == ds = d /\ left = 1..Len(d.event) /\ table = <<>>
(* table: a sequence of [cell, count, energy, xsum, flashes, groups]           *)
RowOf(t, c) == IF \E i \in 1..Len(t) : t[i].cell = c THEN CHOOSE i \in 1..Len(t) : t[i].cell = c ELSE 0
Gather(i) ==
  /\ i \in left /\ left' = left \ {i}
  /\ LET e == ds.event[i]
         c == CellOf(ds, e)
         r == RowOf(table, c)
     IN table' = IF r = 0
          THEN Append(table, [cell |-> c, count |-> 1, energy |-> e[5], xsum |-> Inside(ds, e, 1), flashes |-> {e[2]}, groups |-> {e[1]}])
          ELSE [table EXCEPT ![r] = [cell |-> c, count |-> @.count + 1, energy |-> @.energy + e[5],
                                     xsum |-> @.xsum + Inside(ds, e, 1), flashes |-> @.flashes \cup {e[2]},
                                     groups |-> @.groups \cup {e[1]}]]
  /\ UNCHANGED ds
LutNext == \E i \in left : Gather(i)

EveryOrderGivesTheTable ==
  left = {} => /\ {table[i].cell : i \in 1..Len(table)} = Cells(ds)
               /\ \A i \in 1..Len(table) :
                    LET want == Entry(ds, table[i].cell) IN
                    /\ table[i].count = want.count /\ table[i].energy = want.energy
                    /\ table[i].xsum = want.xsum
                    /\ Cardinality(table[i].flashes) = want.flashes
                    /\ Cardinality(table[i].groups) = want.groups
OneRowPerCell == Cardinality({table[i].cell : i \in 1..Len(table)}) = Len(table)
Conserved ==
  /\ AddUp(1..Len(table), [i \in 1..Len(table) |-> table[i].count]) = Len(ds.event) - Cardinality(left)
  /\ AddUp(1..Len(table), [i \in 1..Len(table) |-> table[i].energy])
       = AddUp((1..Len(ds.event)) \ left, Column(ds.event, 5))
=============================================================================
