----------------------------- MODULE TraceScenes -----------------------------
(* Judges recorded names, metadata and coordinates of imagery.                *)
EXTENDS Scenes, TraceBase
VARIABLE l
Span(edges, n) == (Centre2(edges, n) - Centre2(edges, 1)) \div 2
(* Half a step of packing, and one for rounding.                              *)
Unpack(pack) == [k \in 1..Len(pack.codes) |-> pack.codes[k] * pack.scale + pack.offset]
Centred(pack, centres2, tol) ==
  LET u == Unpack(pack)
  IN Len(u) = Len(centres2) /\ \A k \in 1..Len(u) : Near(2 * u[k], centres2[k], 2 * tol)
Decoded(r) == /\ Len(r.xs) = Len(r.x.codes) /\ Len(r.ys) = Len(r.y.codes)
              /\ (\A k \in 1..Len(r.xs) : Near(r.xs[k], Unpack(r.x)[k], 1))
              /\ (\A k \in 1..Len(r.ys) : Near(r.ys[k], Unpack(r.y)[k], 1))
NameClauses(ev, r, start, end, scene) ==
  << <<"name_times", r.name.s = DigitsOf(start) /\ r.name.e = DigitsOf(end)>>,
     <<"coverage_times", r.start = start \o <<0>> /\ r.end = end \o <<0>> >>,
     <<"created", r.created = SubSeq(TimeOf(r.name.c), 1, 6)>>,
     <<"dataset_name", r.dataset = r.full>>,
     <<"platform", r.platform = ev.platform /\ r.name.platform = ev.platform>>,
     <<"orbital_slot", r.slot = ev.slot>>,
     <<"instrument", r.instrument = ev.instrument>>,
     <<"scene", r.scene = Title(scene) /\ r.name.scene = Letters(scene)>> >>
MetaClauses(ev) ==
  LET r == ev.res
      start == AddSeconds(ev.from, ev.frame * ev.interval)
      end == AddSeconds(start, ev.interval)
      scene == SceneOf(Span(ev.xedges, ev.nx), Span(ev.yedges, ev.ny))
      xs == [k \in 1..ev.nx |-> Centre2(ev.xedges, k)]
      ys == [k \in 1..ev.ny |-> Centre2(ev.yedges, ev.ny - k + 1)]
      tol == IF ev.aligned THEN 2 ELSE Step \div 2 + 2
  IN NameClauses(ev, r, start, end, scene) \o
     << <<"file_name", IF ev.plain THEN r.file = r.dataset ELSE r.given = <<start, end>> >>,
        <<"resolution", Told(r.resolution, ev.spacing)>>,
        <<"x_centres", Centred(r.x, xs, tol)>>,
        <<"y_centres", Centred(r.y, ys, tol)>>,
        <<"decoded_as_packed", Decoded(r)>>,
        <<"subpoint", Near(r.lon, ev.nadir, 1) /\ r.lat = 0 /\ Near(r.projlon, ev.nadir, 1)>>,
        <<"perspective", r.height = 35786023 /\ r.major = 6378137 /\ r.sweep = "x" /\
             r.minor = 635675231 /\ Near(r.flat, 298257222, 5) /\ r.projlat = 0 /\ r.mapping = "geostationary">>,
        <<"axes", r.axes = Axes>>,
        <<"subpoint_units", r.measured = <<"degrees_east", "degrees_north">> >>,
        <<"fields", [k \in 1..Len(r.fields) |-> <<r.fields[k].name, r.fields[k].units>>] = FieldUnits>>,
        <<"field_grids", \A k \in 1..Len(r.fields) : LET f == r.fields[k] IN
             f.dims = <<"y", "x">> /\ f.sizes = <<ev.ny, ev.nx>> /\ f.standard = Standard(f.name) /\
             f.mapping = "goes_imager_projection">>,
        <<"density_units", \A k \in 1..Len(r.fields) : LET f == r.fields[k] IN
             f.units = "count" => TellsArea(f.area, ev.dx, ev.dy) /\ TellsTime(f.tenths, ev.interval)>>,
        <<"quality", r.quality = <<0>> >>,
        <<"timeline", r.timeline = "ABI Mode 3">> >>
AttrClauses(ev) == NameClauses(ev, ev.res, ev.start, ev.end, ev.scene) \o
     << <<"resolution_text", ev.res.text = ev.resolution>>,
        <<"source", ev.res.source = ev.source>> >>
SceneClauses(ev) == << <<"scene_of_span", ev.res.scene = SceneOf(ev.ew, ev.ns)>>,
                       <<"resolution_of_spacing", Told(ev.res.resolution, ev.spacing)>> >>
(* The coordinates of the imager itself, by their places from the west and    *)
(* north.                                                                     *)
CoordClauses(ev) ==
  << <<"columns_of_the_imager", ev.res.x.codes = [k \in 1..ev.nx |-> ev.firstx + k - 1] /\
        Centred(ev.res.x, [k \in 1..ev.nx |-> 2 * Unpacked(ev.firstx + k - 1)], 1)>>,
     <<"rows_of_the_imager", ev.res.y.codes = [k \in 1..ev.ny |-> ev.firsty + k - 1] /\
        Centred(ev.res.y, [k \in 1..ev.ny |-> -2 * Unpacked(ev.firsty + k - 1)], 1)>>,
     <<"decoded_as_packed", Decoded(ev.res)>> >>
Clauses(ev) == CASE ev.op = "meta" -> MetaClauses(ev)
                 [] ev.op = "attrs" -> AttrClauses(ev)
                 [] ev.op = "scene" -> SceneClauses(ev)
                 [] ev.op = "coords" -> CoordClauses(ev)
TraceInit == l = 1 /\ now = <<>> /\ step = 0 /\ named = <<>> /\ year = 0 /\ month = 0 /\ day = 0 /\ dayofyear = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED <<svars, cvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, svars, cvars>>
=============================================================================
