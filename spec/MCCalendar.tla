---------------------------- MODULE MCCalendar ----------------------------
EXTENDS Calendar, TLC, Json
CONSTANTS First, Last
Init == year = First /\ month = 1 /\ day = 1 /\ dayofyear = 1
Next == year <= Last /\ Tick
Spec == Init /\ [][Next]_cvars
InYear == dayofyear <= YearDays(year)
Gen == PrintT("GEN " \o ToJson(Digits(year, dayofyear)))
=============================================================================
