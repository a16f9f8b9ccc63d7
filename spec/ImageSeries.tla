---------------------------- MODULE ImageSeries ----------------------------
(* Series of images and their aggregation to longer intervals                 *)
(* (glmtools.io.imagery.open_glm_time_series, aggregate).                     *)
(*                                                                            *)
(* A frame is [time, end, img]; img gives each product a value per cell, 0    *)
(* where there is none. Times are seconds.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Summed == {"flash_extent", "flash_centroid", "energy", "group_extent", "group_centroid"}
Least == {"least_area"}
Averaged == {"flash_area", "group_area"}
Weight(p) == IF p = "flash_area" THEN "flash_extent" ELSE "group_extent"

LeastTime(s) == Min({s[k].time : k \in DOMAIN s})
LastTime(s) == Max({s[k].time : k \in DOMAIN s})
LastEnd(s) == Max({s[k].end : k \in DOMAIN s})
(* Intervals of dt seconds from a to b, each with its left edge.              *)
Intervals(a, b, dt) == [k \in 1..(b - a) \div dt |-> <<a + (k-1)*dt, a + k*dt>>]
WholeRange(s, dt) == <<LeastTime(s), LastTime(s) + dt>>
InInterval(f, i) == i[1] <= f.time /\ f.time < i[2]
Members(s, i) == SelectSeq(s, LAMBDA f : InInterval(f, i))

Total(fs, p, c) == FoldLeft(LAMBDA acc, f : acc + f.img[p][c], 0, fs)
Smallest(fs, p, c) ==
  LET v == {fs[k].img[p][c] : k \in DOMAIN fs} \ {0} IN IF v = {} THEN 0 ELSE Min(v)
Weighted(fs, p, c) == FoldLeft(LAMBDA acc, f : acc + f.img[p][c] * f.img[Weight(p)][c], 0, fs)
(* The average as a fraction.                                                 *)
Mean(fs, p, c) == <<Weighted(fs, p, c), Total(fs, Weight(p), c)>>

(* Frames taken in one after the other, each to its interval.                 *)
VARIABLES series, taken, range, step, totals, least, areas, counted
avars == <<series, taken, range, step, totals, least, areas, counted>>
Bins == Intervals(range[1], range[2], step)
BinsOf(f) == {b \in DOMAIN Bins : InInterval(f, Bins[b])}
Take ==
  /\ taken < Len(series)
  /\ taken' = taken + 1
  /\ LET f == series[taken + 1]  bs == BinsOf(f)
         lower(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE Min({a, b})
     IN IF bs = {} THEN UNCHANGED <<totals, least, areas, counted>>
        ELSE LET b == CHOOSE b \in bs : TRUE
             IN /\ totals' = [totals EXCEPT ![b] = @ + f.img["flash_extent"][1]]
                /\ least' = [least EXCEPT ![b] = lower(@, f.img["least_area"][1])]
                /\ areas' = [areas EXCEPT ![b] = @ + f.img["flash_area"][1] * f.img["flash_extent"][1]]
                /\ counted' = [counted EXCEPT ![b] = @ + 1]
  /\ UNCHANGED <<series, range, step>>
=============================================================================
