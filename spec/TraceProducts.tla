--------------------------- MODULE TraceProducts ---------------------------
(* Judges the images written by a gridding run.                               *)
EXTENDS Products, TraceBase
VARIABLE l
(* Clipping rounds cut points; the footprints and the mesh are rounded to     *)
(* units.                                                                     *)
Tol(p, m, c, f) == p.near[f] * (4 + Ratio(Slack(m, c), p.least)) + 6
OnEdge(p, m, c) == LET e == Extent(Quad(m, c))
                   IN /\ e.x0 - 2 <= p[1] /\ p[1] <= e.x1 + 2 /\ e.y0 - 2 <= p[2] /\ p[2] <= e.y1 + 2
                      /\ ~(e.x0 + 2 < p[1] /\ p[1] < e.x1 - 2 /\ e.y0 + 2 < p[2] /\ p[2] < e.y1 - 2)
(* How many points are in a cell, when those close to its edge may be counted *)
(* in the next.                                                               *)
Counts(pts, m, c, n) ==
  LET edge == {j \in DOMAIN pts : OnEdge(pts[j], m, c)}
      in == {j \in DOMAIN pts : InCell(pts[j], m, c)}
  IN Cardinality(in \ edge) * One15 <= n /\ n <= Cardinality(in \cup edge) * One15 /\ n % One15 = 0
Average(avg, n, total, tolN, tolT) ==    \* avg in 2^-5, n, total and their tolerances in 2^-15
  Near(avg * (n \div 32), total, tolT + (avg + 2) * (tolN \div 32 + 2) + n \div 32)
RunClauses(ev) ==
  LET d == ev.data  r == ev.run  m == r.mesh  S == TLCEval(Selected(d, r))
      shape == Len(ev.res) = Len(r.edges)-1 /\ \A k \in Frames(r) :
                 Len(ev.res[k].cells) = Len(m)-1 /\ \A i \in Indices(ev.res[k].cells) : Len(ev.res[k].cells[i]) = Len(m[1])-1
      at(k, c) == ev.res[k].cells[c[1]+1][c[2]+1]
      in == TLCEval([k \in Frames(r) |-> InExtents(d, r, k)])
      p == TLCEval([k \in Frames(r) |-> [c \in Cells(m) |-> Product(d, in[k], m, c)]])
      all(P(_, _)) == shape => \A k \in Frames(r), c \in Cells(m) : P(k, c)
      same(k, c, f, g) == Near(at(k, c)[g], p[k][c][f], Tol(p[k][c], m, c, f))
      pts(t, time, mine, k) == [j \in {i \in Indices(t) : mine[i] \in S /\ Frame(t[i][time], r.edges) = k} |-> t[j].at]
      tol(k, c, f) == Tol(p[k][c], m, c, f)
  IN << <<"one_image_per_frame", shape /\ \A k \in Frames(r) : ev.res[k].start = r.edges[k] /\ ev.res[k].end = r.edges[k+1]>>,
        <<"total_energy", all(LAMBDA k, c : same(k, c, "energy", "energy"))>>,
        <<"flash_extent", all(LAMBDA k, c : same(k, c, "flashes", "flashes"))>>,
        <<"group_extent", all(LAMBDA k, c : same(k, c, "groups", "groups"))>>,
        <<"flash_centroids", LET own == [i \in Indices(d.flash) |-> d.flash[i].id]
                                 ps == TLCEval([k \in Frames(r) |-> pts(d.flash, "start", own, k)])
                             IN all(LAMBDA k, c : Counts(ps[k], m, c, at(k, c).fcd))>>,
        <<"group_centroids", LET own == [i \in Indices(d.group) |-> d.group[i].flash]
                                 ps == TLCEval([k \in Frames(r) |-> pts(d.group, "time", own, k)])
                             IN all(LAMBDA k, c : Counts(ps[k], m, c, at(k, c).gcd))>>,
        <<"average_flash_area", all(LAMBDA k, c : Average(at(k, c).flasharea, p[k][c].flashes, p[k][c].flasharea,
                                       tol(k, c, "flashes"), tol(k, c, "flasharea")))>>,
        <<"average_group_area", all(LAMBDA k, c : Average(at(k, c).grouparea, p[k][c].groups, p[k][c].grouparea,
                                       tol(k, c, "groups"), tol(k, c, "grouparea")))>>,
        <<"average_within_range", all(LAMBDA k, c : at(k, c).flashes # 0 =>
                 \E a \in {d.flash[j].area : j \in Indices(d.flash)}, b \in {d.flash[j].area : j \in Indices(d.flash)} :
                    32*a - 1 <= at(k, c).flasharea /\ at(k, c).flasharea <= 32*b + 1)>>,
        <<"least_flash_area", all(LAMBDA k, c :
             LET got == at(k, c).minarea
             IN IF got = 0 THEN p[k][c].sure = {} ELSE got \in p[k][c].maybe /\ \A s \in p[k][c].sure : got <= s)>> >>
Clauses(ev) == CASE ev.op = "run" -> RunClauses(ev)
TraceInit == /\ l = 1 /\ mesh = <<>> /\ poly = <<>> /\ todo = {} /\ shares = <<>> /\ data = <<>> /\ left = {} /\ grid = <<>>
             /\ run = <<>> /\ unread = {} /\ frames = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED <<pvars, gvars, mvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pvars, gvars, mvars>>
=============================================================================
