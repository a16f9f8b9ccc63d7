------------------------------ MODULE Calendar ------------------------------
(* Days of the Gregorian calendar, and the times written in product names     *)
(* (glmtools.io.glm.parse_glm_filename).                                      *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 31
YearDays(y) == IF Leap(y) THEN 366 ELSE 365

(* The month and day of the n-th day of a year.                               *)
RECURSIVE DayFrom(_, _, _)
DayFrom(y, m, n) == IF n <= DaysIn(y, m) THEN <<m, n>> ELSE DayFrom(y, m+1, n - DaysIn(y, m))
MonthDay(y, n) == DayFrom(y, 1, n)

(* Digits of a name: YYYYJJJHHMMSSt                                           *)
RECURSIVE Num(_)
Num(ds) == IF ds = <<>> THEN 0 ELSE Num(SubSeq(ds, 1, Len(ds)-1)) * 10 + ds[Len(ds)]
TimeOf(ds) ==
  LET y == Num(SubSeq(ds, 1, 4))
      md == MonthDay(y, Num(SubSeq(ds, 5, 7)))
  IN <<y, md[1], md[2], Num(SubSeq(ds, 8, 9)), Num(SubSeq(ds, 10, 11)), Num(SubSeq(ds, 12, 13)),
       ds[14] * 100000>>

(* A clock that counts days.                                                  *)
VARIABLES year, month, day, dayofyear
cvars == <<year, month, day, dayofyear>>
Tick ==
  IF day < DaysIn(year, month)
    THEN day' = day + 1 /\ dayofyear' = dayofyear + 1 /\ UNCHANGED <<year, month>>
    ELSE IF month < 12
      THEN day' = 1 /\ month' = month + 1 /\ dayofyear' = dayofyear + 1 /\ UNCHANGED year
      ELSE day' = 1 /\ month' = 1 /\ year' = year + 1 /\ dayofyear' = 1
Agree == MonthDay(year, dayofyear) = <<month, day>>
Digits(y, n) == <<y \div 1000, (y \div 100) % 10, (y \div 10) % 10, y % 10, n \div 100, (n \div 10) % 10, n % 10>>
AsWritten == LET t == TimeOf(Digits(year, dayofyear) \o <<0,1,0,2,0,3,4>>)
             IN t = <<year, month, day, 1, 2, 3, 400000>>
=============================================================================
