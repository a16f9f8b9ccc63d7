------------------------------ MODULE MCPlots ------------------------------
EXTENDS Plots
Cubes == [1..2 -> [1..2 -> {<< <<a, 1>> >> : a \in {-1, 0, 3}}]]
Lists == {<<Names[1]>>, <<Names[2]>>, <<Names[1], Names[2]>>, <<Names[2], Names[1]>>, <<Names[1], Names[1]>>}
Init == cube \in Cubes /\ fields \in Lists /\ frame \in 1..2 /\ panels = << >>
Next == Draw \/ \E fs \in Lists, t \in 1..2 : Anew(fs, t)
Spec == Init /\ [][Next]_vars
(* Every panel is of one frame and its largest value is shown somewhere.      *)
OneFrame == \A k \in Rows(panels) : /\ panels[k].time = frame /\ panels[k].field = fields[k]
   /\ \E r \in Rows(panels[k].shown) : \E c \in Rows(panels[k].shown[r]) : panels[k].shown[r][c] = panels[k].top
   /\ \A j \in Rows(panels) : panels[j].letter = panels[k].letter => j = k
NothingNegative == \A k \in Rows(panels) : \A r \in Rows(panels[k].shown) : \A c \in Rows(panels[k].shown[r]) : panels[k].shown[r][c] >= 0
(* The plots of all flashes show every group and event once.                  *)
Data(h) == [flash |-> <<[id |-> 1, lat |-> 0, lon |-> 0], [id |-> 2, lat |-> 0, lon |-> 0]>>,
            group |-> << >>, event |-> [e \in 1..3 |-> [flash |-> h[e], lat |-> e, lon |-> 0, energy |-> 1]]]
ASSUME \A h \in [1..3 -> 1..2] : \A e \in 1..3 : Times(Events(Data(h), 1), <<e, 0, 1>>) + Times(Events(Data(h), 2), <<e, 0, 1>>) = 1
=============================================================================
