------------------------------ MODULE Gridding ------------------------------
(* From events to grid cells (glmtools.io.mimic_lma, glmtools.grid).          *)
(*                                                                            *)
(* data: loc   - footprints of the event locations, convex polygons           *)
(*       event - [flash, group, loc, energy]                                  *)
(*       flash - [id, area, ...], group - [id, area, ...]                     *)
(* Fractions are in multiples of 2^-15.                                       *)
EXTENDS Meshes
One15 == 32768
Indices(s) == 1..Len(s)
At(d, F, L) == {k \in Indices(d.event) : d.event[k].loc = L /\ d.event[k].flash \in F}
FlashesAt(d, F, L) == {d.event[k].flash : k \in At(d, F, L)}
GroupsAt(d, F, L) == {d.event[k].group : k \in At(d, F, L)}
RECURSIVE AddOver(_, _)
AddOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + AddOver(S \ {i}, f)
LeastOf(S) == CHOOSE m \in S : \A n \in S : m <= n
AreaOf(t, id) == t[CHOOSE k \in Indices(t) : t[k].id = id].area
(* What is known of a location before it is split over the cells.             *)
AtLocation(d, F, L) ==
  LET fl == FlashesAt(d, F, L)  gr == GroupsAt(d, F, L)
  IN [count |-> Cardinality(At(d, F, L)),
      energy |-> AddOver(At(d, F, L), [k \in Indices(d.event) |-> d.event[k].energy]),
      flashes |-> Cardinality(fl), groups |-> Cardinality(gr),
      flasharea |-> AddOver(fl, [f \in fl |-> AreaOf(d.flash, f)]),
      grouparea |-> AddOver(gr, [g \in gr |-> AreaOf(d.group, g)]),
      minarea |-> IF fl = {} THEN 0 ELSE LeastOf({AreaOf(d.flash, f) : f \in fl})]
Used(d, F) == {L \in Indices(d.loc) : At(d, F, L) # {}}
(* The locations that share area with a cell, and those that are within a     *)
(* unit of doing so.                                                          *)
Grow(e) == [x0 |-> e.x0 - 2, x1 |-> e.x1 + 2, y0 |-> e.y0 - 2, y1 |-> e.y1 + 2]
Close(d, m, L, c) == ~Apart(Grow(Extent(d.loc[L])), Extent(Quad(m, c)))
Product(d, F, m, c) ==
  LET near == {L \in Used(d, F) : Close(d, m, L, c)}
      share == TLCEval([L \in near |-> ShareOf(m, d.loc[L], c)])
      cell == Area2(Quad(m, c))
      here == TLCEval([L \in near |-> AtLocation(d, F, L)])
      covered == TLCEval([L \in near |-> Ratio(share[L], cell)])
      part == TLCEval([L \in near |-> Ratio(share[L], Area2(d.loc[L]))])
      sum(f) == AddOver(near, f)
      slack == Slack(m, c)
  IN [energy |-> sum([L \in near |-> here[L].energy * part[L]]),
      count |-> sum([L \in near |-> here[L].count * covered[L]]),
      flashes |-> sum([L \in near |-> here[L].flashes * covered[L]]),
      groups |-> sum([L \in near |-> here[L].groups * covered[L]]),
      flasharea |-> sum([L \in near |-> here[L].flasharea * covered[L]]),
      grouparea |-> sum([L \in near |-> here[L].grouparea * covered[L]]),
      frac |-> sum(covered),
      \* the smallest area, over the locations that surely share the cell, and those that may
      sure |-> {here[L].minarea : L \in {K \in near : share[K] > slack}},
      maybe |-> {here[L].minarea : L \in near},
      least |-> LeastOf({cell} \cup {Area2(d.loc[L]) : L \in near}),
      \* totals at the locations near the cell, for tolerances
      near |-> [energy |-> sum([L \in near |-> here[L].energy]), count |-> sum([L \in near |-> here[L].count]),
                flashes |-> sum([L \in near |-> here[L].flashes]), groups |-> sum([L \in near |-> here[L].groups]),
                flasharea |-> sum([L \in near |-> here[L].flasharea]),
                grouparea |-> sum([L \in near |-> here[L].grouparea]), frac |-> Cardinality(near)]]

(* Chunks of flashes go to the grid one after another.                        *)
VARIABLES data, left, grid
gvars == <<data, left, grid>>
Fields == {"energy", "count", "flashes", "groups", "flasharea", "grouparea"}
EmptyCell == [f \in Fields |-> 0] @@ ("minarea" :> 0)
Smaller(a, S) == LET T == (IF a = 0 THEN {} ELSE {a}) \cup S IN IF T = {} THEN 0 ELSE LeastOf(T)
SendChunk(F, m) ==
  /\ F # {} /\ F \subseteq left
  /\ left' = left \ F
  /\ grid' = [c \in DOMAIN grid |-> LET p == Product(data, F, m, c)
              IN [f \in Fields |-> grid[c][f] + p[f]] @@ ("minarea" :> Smaller(grid[c].minarea, p.sure))]
  /\ UNCHANGED <<data, mvars>>
=============================================================================
