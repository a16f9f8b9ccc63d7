--------------------------- MODULE MCAccumulation ---------------------------
EXTENDS Accumulation
CONSTANT Kind
Cells == CellsOf(2, 1)
Batches == {<<>>} \cup {<<[c |-> c, v |-> v]>> : c \in Cells, v \in {1, 3}}
           \cup {<<[c |-> <<0, 0>>, v |-> v], [c |-> <<1, 0>>, v |-> w]>> : v, w \in {1, 3}}
Init == grid = [c \in Cells |-> 0] /\ sent = <<>>
Next == Len(sent) < 4 /\ \E b \in Batches : Send(Kind, b)
Spec == Init /\ [][Next]_avars
AsSent == \A c \in Cells : grid[c] = Expected(Kind, sent, c)
(* The order of the batches and their division do not matter.                 *)
AnyOrder == \A c \in Cells : Expected(Kind, sent, c) = Expected(Kind, Reverse(sent), c)
AnyDivision == \A c \in Cells :
   Expected(Kind, sent, c) = Expected(Kind, [k \in 1..Len(FlattenSeq(sent)) |-> <<FlattenSeq(sent)[k]>>], c)
=============================================================================
