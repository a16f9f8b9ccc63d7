------------------------------- MODULE Scenes -------------------------------
(* Names, times, scenes and coordinates written in imagery files.             *)
(* Times are <<year, month, day, hour, minute, second>>, angles in 0.1        *)
(* microradian, resolutions in 0.01 microradian.                              *)
EXTENDS Calendar, FiniteSets, TLC
(* -- Times -- *)
RECURSIVE AddDays(_, _, _, _)
AddDays(y, m, d, n) ==
  IF d + n <= DaysIn(y, m) THEN <<y, m, d + n>>
  ELSE LET used == DaysIn(y, m) - d + 1
       IN IF m < 12 THEN AddDays(y, m+1, 1, n - used) ELSE AddDays(y+1, 1, 1, n - used)
AddSeconds(t, s) ==
  LET total == t[4]*3600 + t[5]*60 + t[6] + s
      rest == total % 86400
  IN AddDays(t[1], t[2], t[3], total \div 86400) \o <<rest \div 3600, (rest \div 60) % 60, rest % 60>>
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m-1) + DaysIn(y, m-1)
Two(v) == <<v \div 10, v % 10>>
(* The digits of a time in a name: year, day of year, time, tenths.           *)
DigitsOf(t) == Digits(t[1], DaysBefore(t[1], t[2]) + t[3]) \o Two(t[4]) \o Two(t[5]) \o Two(t[6]) \o <<0>>
RECURSIVE Earlier(_, _)
Earlier(a, b) == IF a = <<>> THEN FALSE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Earlier(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))

(* -- Scenes -- *)
Within(v, ref) == (IF v > ref THEN v - ref ELSE ref - v) <= ref \div 100
Full == 3037440
Conus == <<1400000, 840000>>
Wide == 1727320
Meso == 280000
SceneOf(ew, ns) ==
  IF Within(ew, Full) /\ Within(ns, Full) THEN "FULL"
  ELSE IF Within(ew, Conus[1]) /\ Within(ns, Conus[2]) THEN "CONUS"
  ELSE IF Within(ew, Meso) /\ Within(ns, Meso) THEN "MESO1"
  ELSE IF Within(ew, Wide) THEN "CONUS"
  ELSE "OTHER"
Letters(scene) == CASE scene = "FULL" -> "F" [] scene = "CONUS" -> "C" [] scene = "MESO2" -> "M2" [] OTHER -> "M1"
Title(scene) == CASE scene = "FULL" -> "Full Disk" [] scene = "CONUS" -> "CONUS"
                  [] scene \in {"MESO1", "MESO2"} -> "Mesoscale" [] OTHER -> "Custom"

(* -- Resolutions: tenths of a kilometer for angles -- *)
Nominal == {<<5, 1400>>, <<10, 2800>>, <<20, 5600>>, <<40, 11200>>, <<80, 22400>>, <<100, 28000>>, <<1000, 280000>>}
Known(d) == {r \in Nominal : Within(d, r[2])}
Resolution(d) == IF Known(d) # {} THEN [num |-> (CHOOSE r \in Known(d) : TRUE)[1], unit |-> "km"]
                 ELSE [num |-> (d + 50) \div 100, unit |-> "microradian"]
(* Kilometers are written without a fraction unless there is one.             *)
ResolutionText(r) ==
  (IF r.unit # "km" THEN ToString(r.num) ELSE IF r.num % 10 = 0 THEN ToString(r.num \div 10)
   ELSE ToString(r.num \div 10) \o "." \o ToString(r.num % 10)) \o r.unit \o " at nadir"
Told(got, d) == LET r == Resolution(d) IN got.num = r.num /\ got.unit = r.unit /\ got.text = ResolutionText(r)

(* -- Packed coordinates -- *)
Step == 560
Origin == 1518440
Packed(x) == (x + Origin + Step \div 2) \div Step
Unpacked(c) == c * Step - Origin
(* Centres in half units, so that they are whole.                             *)
Centre2(edges, c) == edges[c] + edges[c+1]

(* -- Descriptions -- *)
Axes == << <<"X", "rad", "projection_x_coordinate">>, <<"Y", "rad", "projection_y_coordinate">> >>
(* Names of fields with their units, in the order of the names.               *)
FieldUnits == << <<"DQF", "1">>, <<"average_flash_area", "km^2 per flash">>, <<"average_group_area", "km^2 per group">>,
                 <<"flash_centroid_density", "count">>, <<"flash_extent_density", "count">>,
                 <<"group_centroid_density", "count">>, <<"group_extent_density", "count">>,
                 <<"minimum_flash_area", "km^2">>, <<"total_energy", "nJ">> >>
Standard(name) == IF name = "DQF" THEN "status_flag" ELSE name
(* Areas of pixels are told in square microradians, without the fraction;     *)
(* what is left out of spacings in 0.1 microradian is allowed for.            *)
TellsArea(area, dx, dy) == dx > 40000 \/ dy > 40000 \/
  LET a == (dx * dy) \div 100 - area IN (IF a < 0 THEN -a ELSE a) <= (dx + dy) \div 100 + 2
(* A tenth of a minute is six seconds.                                        *)
TellsTime(tenths, seconds) == LET a == 6 * tenths - seconds IN (IF a < 0 THEN -a ELSE a) <= 3

(* A writer going through frames.                                             *)
VARIABLES now, step, named
svars == <<now, step, named>>
WriteFrame == /\ named' = Append(named, <<DigitsOf(now), DigitsOf(AddSeconds(now, step))>>)
              /\ now' = AddSeconds(now, step) /\ UNCHANGED step
=============================================================================
