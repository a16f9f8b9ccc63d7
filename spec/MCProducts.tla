----------------------------- MODULE MCProducts -----------------------------
(* Three flashes in one to three files, two frames, four cells.               *)
EXTENDS Products
M == [i \in 1..3 |-> [j \in 1..3 |-> <<64*(j-1), 64*(i-1)>>]]
Sq(x, y) == << <<x-32, y-32>>, <<x+32, y-32>>, <<x+32, y+32>>, <<x-32, y+32>> >>
Locs == <<Sq(32, 32), Sq(64, 48), Sq(192, 96)>>
Centres == << <<32, 32>>, <<64, 48>>, <<192, 96>> >>
Spots == {<<10, 10>>, <<64, 100>>, <<150, 10>>}
Ev(f, g, loc, e) == [flash |-> f, group |-> g, loc |-> loc, energy |-> e]
Runs == {[mesh |-> M, edges |-> es, box |-> <<-64, 192, -64, 192>>, events |-> n, groups |-> 1] :
           es \in {<<0, 20, 40>>, <<20, 50, 80>>}, n \in {1, 2}}
Times == <<0, 20, 40>>
Puts == {<<1, 1, 1>>, <<1, 2, 2>>, <<1, 2, 3>>, <<3, 1, 2>>, <<2, 2, 3>>}
AllPuts == [1..3 -> 1..3]
Late == {1}
BothLate == {1, 3}
Data(put, spot, late, a, b, c) ==
  [loc |-> Locs, pos |-> Centres, file |-> [k \in 1..3 |-> [time |-> Times[k]]],
   flash |-> [k \in 1..3 |-> [id |-> k, file |-> put[k], area |-> 6-k, at |-> IF k = 1 THEN spot ELSE <<10, 100>>,
                              start |-> Times[put[k]] + IF k = late THEN 19 ELSE 0]],
   group |-> [k \in 1..3 |-> [id |-> k, flash |-> k, area |-> k, at |-> <<100, 100>>, time |-> Times[put[k]] + 19]],
   event |-> <<Ev(1, 1, a, 1), Ev(2, 2, b, 2), Ev(2, 2, b, 3), Ev(3, 3, c, 4)>>]
Init == /\ data \in {Data(put, spot, late, a, b, 1) : put \in Puts, spot \in Spots, late \in Late,
                       a \in {1, 3}, b \in 1..2}
        /\ run \in Runs /\ unread = 1..3
        /\ frames = [k \in Frames(run) |-> [c \in Cells(M) |-> Blank]]
        /\ mesh = M /\ poly = <<>> /\ todo = {} /\ shares = <<>> /\ left = {} /\ grid = <<>>
Next == \E n \in unread : ReadFile(n)
Spec == Init /\ [][Next]_<<pvars, gvars, mvars>>
(* The order of the files does not matter: the frames are those defined from  *)
(* all of the data.                                                           *)
Whole == unread = {} => \A k \in Frames(run), c \in Cells(M) :
   LET p == ProductOf(data, run, k, c)  S == Selected(data, run)
   IN /\ \A f \in Fields : frames[k][c][f] = p[f]
      /\ frames[k][c].minarea = Smaller(0, p.sure)
      /\ frames[k][c].centroids = Cardinality(FlashCentroids(data, run, S, k, c))
      /\ frames[k][c].gcentroids = Cardinality(GroupCentroids(data, run, S, k, c))
(* Every selected flash in the grid and time range is counted in one frame.   *)
InRange(t) == run.edges[1] <= t /\ t < run.edges[Len(run.edges)]
Total(f) == AddOver(Frames(run), [k \in Frames(run) |-> AddOver(Cells(M), [c \in Cells(M) |-> frames[k][c][f]])])
Counted == unread = {} =>
   Total("centroids") = Cardinality({f \in Selected(data, run) : InRange(FlashOf(data, f).start)
       /\ \E c \in Cells(M) : InCell(FlashOf(data, f).at, M, c)})
Energy == unread = {} =>
   Total("energy") = One15 * AddOver({k \in Indices(data.event) :
        /\ data.event[k].flash \in Selected(data, run) /\ data.event[k].loc < 3
        /\ InRange(data.file[FlashOf(data, data.event[k].flash).file].time)}, [k \in Indices(data.event) |-> data.event[k].energy])
=============================================================================
