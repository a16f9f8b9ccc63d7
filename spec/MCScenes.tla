------------------------------ MODULE MCScenes ------------------------------
EXTENDS Scenes
Starts == {<<2019, 12, 31, 23, 59, 0>>, <<2020, 2, 28, 23, 58, 30>>, <<2020, 12, 30, 12, 0, 0>>, <<2021, 2, 28, 0, 0, 59>>,
           <<2018, 7, 2, 4, 33, 0>>, <<2000, 2, 28, 23, 0, 0>>, <<2100, 2, 28, 23, 0, 0>>, <<2019, 1, 1, 0, 0, 0>>}
Init == /\ now \in Starts /\ step \in {1, 20, 60, 300, 3600, 43200, 86400, 31*86400}
        /\ named = <<>> /\ year = 0 /\ month = 0 /\ day = 0 /\ dayofyear = 0
Next == Len(named) < 5 /\ WriteFrame /\ UNCHANGED cvars
Spec == Init /\ [][Next]_<<svars, cvars>>
ReadBack == \A k \in 1..Len(named) : \A e \in 1..2 :
              LET t == TimeOf(named[k][e]) IN Len(named[k][e]) = 14 /\ DigitsOf(SubSeq(t, 1, 6)) = named[k][e]
Contiguous == \A k \in 2..Len(named) : named[k][1] = named[k-1][2]
Ordered == \A k \in 1..Len(named) : Earlier(named[k][1], named[k][2])
NowAgrees == named # <<>> => SubSeq(TimeOf(named[Len(named)][2]), 1, 6) = now
(* No span is of two scenes, no spacing of two resolutions.                   *)
Spans == {Full, Conus[1], Conus[2], Wide, Meso}
Around(v) == {v, v + v \div 100, v - v \div 100, v + v \div 90, v - v \div 90, 2*v, v \div 2}
ASSUME \A a, b \in Spans : a # b => \A v \in Around(a) : Within(v, a) => ~Within(v, b)
ASSUME SceneOf(Full, Full) = "FULL" /\ SceneOf(Conus[1], Conus[2]) = "CONUS" /\ SceneOf(Meso, Meso) = "MESO1"
ASSUME \A v \in UNION {Around(s) : s \in Spans} : SceneOf(Wide, v) = "CONUS"
ASSUME \A v \in UNION {Around(s) : s \in Spans} : SceneOf(Full, v) \in {"FULL", "OTHER"} /\ SceneOf(v, Conus[2]) \in {"CONUS", "OTHER"}
ASSUME \A d \in 500..30000 : Cardinality(Known(d)) <= 1
ASSUME \A r \in Nominal : Resolution(r[2]).unit = "km"
(* Packing keeps a coordinate to half a step, and coordinates of the imager   *)
(* exactly.                                                                   *)
ASSUME \A k \in -600..600 : LET x == k * 2531 IN Unpacked(Packed(x)) - x <= Step \div 2 /\ x - Unpacked(Packed(x)) <= Step \div 2
ASSUME \A c \in 0..5423 : Packed(Unpacked(c)) = c
=============================================================================
