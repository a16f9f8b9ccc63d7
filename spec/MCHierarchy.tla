---------------------------- MODULE MCHierarchy ----------------------------
EXTENDS Hierarchy, TLC, Json
CONSTANTS NIds, MaxReq, MaxChain
VARIABLE chain
Absent == 0
(* Tables at one level: each id is absent or has a parent among the ids above *)
(* or the id NIds+1, which no record has.                                     *)
Assign(top) == [1..NIds -> (IF top THEN {Absent, 1} ELSE Absent..NIds+1)]
RECURSIVE RowsFrom(_, _, _, _)
RowsFrom(f, i, lv, rev) ==
  IF i = 0 THEN <<>>
  ELSE LET row == IF f[i] = Absent THEN <<>> ELSE << <<i, f[i], 10*lv + i>> >>
       IN IF rev THEN row \o RowsFrom(f, i-1, lv, rev) ELSE RowsFrom(f, i-1, lv, rev) \o row
Table(f, lv, rev) == RowsFrom(f, NIds, lv, rev)
Reqs == UNION {[1..n -> 1..NIds+1] : n \in 0..MaxReq}
Init == /\ \E a \in Assign(TRUE), b, c \in Assign(FALSE), rev \in BOOLEAN :
             Idle(<<Table(a, 1, FALSE), Table(b, 2, rev), Table(c, 3, FALSE)>>)
        /\ chain = 0
Next == \/ /\ chain < MaxChain /\ chain' = chain + 1
           /\ \E lv \in 1..3, ids \in Reqs : Request(lv, ids)
        \/ (Descend \/ Ascend \/ Continue) /\ UNCHANGED chain
Spec == Init /\ [][Next]_<<vars, chain>>
(* every initial dataset, for replay *)
Emit == chain = 0 => PrintT("GEN " \o ToJson(src))
=============================================================================
