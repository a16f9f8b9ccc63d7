----------------------------- MODULE MCEventLut -----------------------------
EXTENDS EventLut, TLC, Json
CONSTANT N
(* events of two groups of one flash and one of another, in two cells         *)
Kinds == {<<1, 1, 0, 0, 3>>, <<2, 1, 1, 0, 4>>, <<3, 2, 2, 1, 5>>, <<1, 1, 3, 1, 6>>, <<3, 2, 0, 3, 7>>}
Data(ev) == [event |-> ev, flash |-> << <<1, 10>>, <<2, 20>> >>, group |-> << <<1, 1>>, <<2, 2>>, <<3, 4>> >>,
             step |-> 2, xmin |-> 0, ymin |-> 0]
Init == \E n \in 0..N : \E ev \in [1..n -> Kinds] : Start(Data(ev))
Spec == Init /\ [][LutNext]_evars
Emit == (left = 1..Len(ds.event)) => PrintT("GEN " \o ToJson([i \in 1..Len(ds.event) |-> ds.event[i]]))
GenNext == FALSE /\ UNCHANGED evars
=============================================================================
