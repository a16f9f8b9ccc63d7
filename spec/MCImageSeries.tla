--------------------------- MODULE MCImageSeries ---------------------------
EXTENDS ImageSeries
Imgs == {[flash_extent |-> <<0>>, flash_area |-> <<0>>, least_area |-> <<0>>],
         [flash_extent |-> <<1>>, flash_area |-> <<4>>, least_area |-> <<3>>],
         [flash_extent |-> <<3>>, flash_area |-> <<2>>, least_area |-> <<2>>]}
Frames == {[time |-> t, end |-> t + 1, img |-> i] : t \in 0..3, i \in Imgs}
Distinct(s) == \A a, b \in DOMAIN s : a # b => s[a].time # s[b].time
Init == /\ series \in UNION {[1..k -> Frames] : k \in 1..3} /\ Distinct(series)
        /\ step \in 1..3
        /\ range \in {WholeRange(series, step)} \cup {<<a, a + k*step>> : a \in -1..1, k \in 1..2}
        /\ taken = 0
        /\ LET z == [b \in DOMAIN Bins |-> 0] IN totals = z /\ least = z /\ areas = z /\ counted = z
Next == Take
Spec == Init /\ [][Next]_avars
(* Every frame of the range is in exactly one interval.                       *)
OneInterval == \A k \in DOMAIN series :
    Cardinality(BinsOf(series[k])) = (IF range[1] <= series[k].time /\ series[k].time < range[2]
                                         /\ series[k].time < range[1] + Len(Bins)*step THEN 1 ELSE 0)
WholeCovers == range = WholeRange(series, step) => \A k \in DOMAIN series : BinsOf(series[k]) # {}
Abut == \A b \in 2..Len(Bins) : Bins[b][1] = Bins[b-1][2]
(* Taking frames one by one gives the sums, least values and averages.        *)
Done == taken = Len(series) =>
  \A b \in DOMAIN Bins : LET fs == Members(series, Bins[b]) IN
     /\ totals[b] = Total(fs, "flash_extent", 1)
     /\ least[b] = Smallest(fs, "least_area", 1)
     /\ <<areas[b], totals[b]>> = Mean(fs, "flash_area", 1)
     /\ counted[b] = Len(fs)
SumPairs(s) == FoldSet(LAMBDA x, acc : acc + x[2], 0, s)
Conserved == taken = Len(series) /\ range = WholeRange(series, step) =>
  SumPairs({<<b, totals[b]>> : b \in DOMAIN Bins}) = Total(series, "flash_extent", 1)
=============================================================================
