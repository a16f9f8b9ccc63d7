---------------------------- MODULE PixelLookups ----------------------------
(* Nearest pixel lookups and their files (glmtools.io.ccd).  A table is a     *)
(* matrix of [lon, lat, known]; pixels are named from 0 along both dimensions.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pixels(t) == {p \in (0..Len(t)-1) \X (0..Len(t[1])-1) : t[p[1]+1][p[2]+1].known}
Pos(t, p) == <<t[p[1]+1][p[2]+1].lon, t[p[1]+1][p[2]+1].lat>>
Dist2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
NearestPixels(t, v) == {p \in Pixels(t) : \A q \in Pixels(t) : Dist2(Pos(t, p), v) <= Dist2(Pos(t, q), v)}

(* Tables are kept in memory (held) and in files.                             *)
NoTable == <<>>
VARIABLES held, files, answer, everSaved
pvars == <<held, files, answer, everSaved>>
Build(t) == held' = t /\ answer' = {} /\ UNCHANGED <<files, everSaved>>
Save(f) == /\ held # NoTable /\ files' = [files EXCEPT ![f] = held]
           /\ everSaved' = [everSaved EXCEPT ![f] = @ \cup {held}] /\ answer' = {} /\ UNCHANGED held
Load(f) == files[f] # NoTable /\ held' = files[f] /\ answer' = {} /\ UNCHANGED <<files, everSaved>>
Ask(v) == held # NoTable /\ answer' = NearestPixels(held, v) /\ UNCHANGED <<held, files, everSaved>>
LastSaved(history, f) == LET at == {k \in 1..Len(history) : history[k].file = f}
                         IN history[CHOOSE k \in at : \A j \in at : j <= k].table
=============================================================================
