------------------------------ MODULE Products ------------------------------
(* Gridded products from a set of files (glmtools.grid.make_grids).           *)
(*                                                                            *)
(* Besides what Gridding describes, data has                                  *)
(*   file  - [time]; pos - positions of the event locations                  *)
(*   flash - [id, file, start, at, area], group - [id, flash, time, at, area] *)
(* A run has frame edges, a mesh, the box in which flashes (their centroid and *)
(* any of their events) are looked for and the least number of events and     *)
(* groups of a flash.                                                         *)
EXTENDS Gridding
Frame(t, edges) == IF \E k \in 1..Len(edges)-1 : edges[k] <= t /\ t < edges[k+1]
                   THEN CHOOSE k \in 1..Len(edges)-1 : edges[k] <= t /\ t < edges[k+1] ELSE 0
Frames(r) == 1..Len(r.edges)-1
Strictly(p, b) == b[1] < p[1] /\ p[1] < b[2] /\ b[3] < p[2] /\ p[2] < b[4]
EventsOf(d, f) == {k \in Indices(d.event) : d.event[k].flash = f}
GroupsOf(d, f) == {k \in Indices(d.group) : d.group[k].flash = f}
FlashOf(d, f) == d.flash[CHOOSE k \in Indices(d.flash) : d.flash[k].id = f]
Selected(d, r) == {f \in {d.flash[k].id : k \in Indices(d.flash)} :
                     /\ Strictly(FlashOf(d, f).at, r.box)
                     /\ \E k \in EventsOf(d, f) : Strictly(d.pos[d.event[k].loc], r.box)
                     /\ Cardinality(EventsOf(d, f)) >= r.events
                     /\ Cardinality(GroupsOf(d, f)) >= r.groups}
(* Extents and energy belong to the frame of the file, centroids to the frame *)
(* of their own time.                                                         *)
InExtents(d, r, k) == {f \in Selected(d, r) : Frame(d.file[FlashOf(d, f).file].time, r.edges) = k}
InCell(p, m, c) == LET e == Extent(Quad(m, c)) IN e.x0 <= p[1] /\ p[1] < e.x1 /\ e.y0 <= p[2] /\ p[2] < e.y1
FlashCentroids(d, r, S, k, c) == {j \in Indices(d.flash) :
   d.flash[j].id \in S /\ Frame(d.flash[j].start, r.edges) = k /\ InCell(d.flash[j].at, r.mesh, c)}
GroupCentroids(d, r, S, k, c) == {j \in Indices(d.group) :
   d.group[j].flash \in S /\ Frame(d.group[j].time, r.edges) = k /\ InCell(d.group[j].at, r.mesh, c)}
ProductOf(d, r, k, c) == Product(d, InExtents(d, r, k), r.mesh, c)

(* Files are read one after another; frames[k][c] is the grid so far.         *)
VARIABLES run, unread, frames
pvars == <<run, unread, frames>>
Blank == EmptyCell @@ ("centroids" :> 0) @@ ("gcentroids" :> 0)
AddTo(cell, p, nf, ng) ==
  [f \in Fields |-> cell[f] + p[f]] @@ ("minarea" :> Smaller(cell.minarea, p.sure))
     @@ ("centroids" :> cell.centroids + nf) @@ ("gcentroids" :> cell.gcentroids + ng)
ReadFile(n) ==
  /\ n \in unread
  /\ unread' = unread \ {n}
  /\ LET mine == {f \in Selected(data, run) : FlashOf(data, f).file = n}
     IN frames' = [k \in Frames(run) |-> [c \in Cells(run.mesh) |->
          AddTo(frames[k][c], Product(data, InExtents(data, run, k) \cap mine, run.mesh, c),
                Cardinality(FlashCentroids(data, run, mine, k, c)),
                Cardinality(GroupCentroids(data, run, mine, k, c)))]]
  /\ UNCHANGED <<run, gvars, mvars>>
=============================================================================
