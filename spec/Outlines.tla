------------------------------ MODULE Outlines ------------------------------
(* Events, and the joined outlines of the events of groups and flashes, split *)
(* over a grid (glmtools.io.mimic_lma.read_flash_chunk).                      *)
(*                                                                            *)
(* data: foot  - sides of the footprint of an event: l, r, b, t, in multiples *)
(*               of 50; outlines are joined from footprints 2 percent larger  *)
(*       event - [id, flash, group, x, y, energy, time]                       *)
(*       group - [id, flash, energy, time, ...], flash - [id, energy, time, ...]    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
Indices(s) == 1..Len(s)
Rect(f, x, y) == [x0 |-> x - f.l, x1 |-> x + f.r, y0 |-> y - f.b, y1 |-> y + f.t]
Larger(f) == [k \in DOMAIN f |-> 51 * (f[k] \div 50)]
(* The rectangles that make up a record of a level.                           *)
Parts(d, level, id) ==
  IF level = "event"
  THEN {Rect(d.foot, d.event[k].x, d.event[k].y) : k \in {j \in Indices(d.event) : d.event[j].id = id}}
  ELSE {Rect(Larger(d.foot), d.event[k].x, d.event[k].y) : k \in {j \in Indices(d.event) : d.event[j][level] = id}}
Holds(S, x, y) == \E r \in S : r.x0 <= x /\ x < r.x1 /\ r.y0 <= y /\ y < r.y1
Meets(r, c) == r.x0 < c.x1 /\ r.x1 > c.x0 /\ r.y0 < c.y1 /\ r.y1 > c.y0
After(v, T) == Min({w \in T : w > v})
(* The area of a rectangle c that is covered by rectangles, from the blocks   *)
(* between all their sides.                                                   *)
AreaIn(All, c) ==
  LET S == {r \in All : Meets(r, c)}
      xs == TLCEval({c.x0, c.x1} \cup {x \in {r.x0 : r \in S} \cup {r.x1 : r \in S} : c.x0 < x /\ x < c.x1})
      ys == TLCEval({c.y0, c.y1} \cup {y \in {r.y0 : r \in S} \cup {r.y1 : r \in S} : c.y0 < y /\ y < c.y1})
      block(b) == IF Holds(S, b[1], b[2]) THEN (After(b[1], xs) - b[1]) * (After(b[2], ys) - b[2]) ELSE 0
  IN IF S = {} THEN 0 ELSE MapThenSumSet(block, (xs \ {c.x1}) \X (ys \ {c.y1}))
Extent(S) == [x0 |-> Min({r.x0 : r \in S}), x1 |-> Max({r.x1 : r \in S}),
              y0 |-> Min({r.y0 : r \in S}), y1 |-> Max({r.y1 : r \in S})]
AreaOf(S) == AreaIn(S, Extent(S))
CellArea(c) == (c.x1 - c.x0) * (c.y1 - c.y0)

(* Events join the outline one by one.                                        *)
VARIABLES pending, outline, area
ovars == <<pending, outline, area>>
JoinEvent(r) == /\ r \in pending /\ pending' = pending \ {r}
                /\ outline' = outline \cup {r}
                /\ area' = area + CellArea(r) - AreaIn(outline, r)
=============================================================================
