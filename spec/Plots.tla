------------------------------- MODULE Plots -------------------------------
(* What plots show (glmtools.plot).                                           *)
(* Data has flash - [id, lat, lon, start, lasts], group - [id, flash, lat,    *)
(* lon, energy] and event - [flash, lat, lon, energy].                        *)
(* A cube holds values by field, frame, row and column; -1 is no value.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Rows(s) == 1..Len(s)
Of(s, f) == SelectSeq(s, LAMBDA r : r.flash = f)
Place(r) == <<r.lat, r.lon>>
Places(s) == [k \in Rows(s) |-> Place(s[k])]
Points(s) == [k \in Rows(s) |-> <<s[k].lat, s[k].lon, s[k].energy>>]
Groups(d, f) == Points(Of(d.group, f))
Events(d, f) == Points(Of(d.event, f))
TheFlash(d, f) == SelectSeq(d.flash, LAMBDA r : r.id = f)
Times(s, v) == Cardinality({k \in Rows(s) : s[k] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in Rows(b) : Times(a, b[k]) = Times(b, b[k])

(* The panel of a field shows the frame, with zeros where there is no value.  *)
Value(v) == IF v < 0 THEN 0 ELSE v
Shown(frame) == [r \in Rows(frame) |-> [c \in Rows(frame[r]) |-> Value(frame[r][c])]]
Top(frame) == Max(UNION {{Value(frame[r][c]) : c \in Rows(frame[r])} : r \in Rows(frame)})
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l">>
Units == [flash_extent_density |-> "count", flash_centroid_density |-> "count", group_extent_density |-> "count",
          group_centroid_density |-> "count", total_energy |-> "nJ", average_flash_area |-> "km",
          average_group_area |-> "km", minimum_flash_area |-> "km"]
(* The colours are logarithmic between the limits of the field; those of      *)
(* energies are in nJ.                                                        *)
Scale(low, high) == <<"LogNorm", low, high>>
Scales == [flash_extent_density |-> Scale(1, 50), flash_centroid_density |-> Scale(1, 10),
           group_extent_density |-> Scale(1, 500), group_centroid_density |-> Scale(1, 10),
           total_energy |-> Scale(10, 1000000), average_flash_area |-> Scale(50, 5000),
           average_group_area |-> Scale(50, 5000), minimum_flash_area |-> Scale(50, 5000)]
Panel(cube, fields, names, k, t) ==
  LET f == CHOOSE j \in Rows(names) : names[j] = fields[k]
  IN [field |-> fields[k], unit |-> Units[fields[k]], letter |-> Letters[k], time |-> t, scale |-> Scales[fields[k]],
      shown |-> Shown(cube[f][t]), top |-> Top(cube[f][t])]

(* A figure is drawn panel by panel; drawing anew starts from nothing.        *)
VARIABLES cube, fields, frame, panels
vars == <<cube, fields, frame, panels>>
Names == <<"flash_extent_density", "total_energy">>
Draw == /\ Len(panels) < Len(fields)
        /\ panels' = Append(panels, Panel(cube, fields, Names, Len(panels)+1, frame))
        /\ UNCHANGED <<cube, fields, frame>>
Anew(fs, t) == fields' = fs /\ frame' = t /\ panels' = << >> /\ UNCHANGED cube
=============================================================================
