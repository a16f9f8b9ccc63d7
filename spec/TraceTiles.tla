----------------------------- MODULE TraceTiles -----------------------------
(* Judges recorded divisions of grids into tiles.                             *)
EXTENDS Tiles, SequencesExt, TraceBase
VARIABLE l
BoundClauses(ev) ==
  << <<"every_cell_once", Cuts(ev.res, ev.size, ev.s)>>,
     <<"equal_lengths", Cuts(ev.res, ev.size, ev.s) => Even(ev.res, ev.s)>> >>
Tile(ev, i, j) == CHOOSE k \in 1..Len(ev.res) : ev.res[k].index = <<i, j>>
TileClauses(ev) ==
  LET s == ev.s  all == 1..Len(ev.res)
      listed == {ev.res[k].index : k \in all} = (0..s-1) \X (0..s-1) /\ Len(ev.res) = s*s
      \* the cells of a tile are those left when its padding is cut off
      lo(k, a) == ev.res[k].grid[2*a-1] + ev.res[k].pads[a]
      hi(k, a) == ev.res[k].grid[2*a] - ev.res[k].pads[a]
      at(i, j, a) == IF a = 1 THEN <<i, j>> ELSE <<j, i>>
      side(a, j) == [i \in 1..s+1 |-> IF i = s+1 THEN hi(Tile(ev, at(s-1, j, a)[1], at(s-1, j, a)[2]), a)
                                      ELSE lo(Tile(ev, at(i-1, j, a)[1], at(i-1, j, a)[2]), a)]
  IN << <<"every_tile_once", listed>>,
        <<"every_cell_once", listed => \A a \in 1..2 :
             \A j \in 0..s-1 : Cuts(side(a, j), ev.size[a], s) /\ side(a, j) = side(a, 0)>>,
        <<"tiles_abut", listed => \A a \in 1..2 : \A i \in 0..s-2, j \in 0..s-1 :
             hi(Tile(ev, at(i, j, a)[1], at(i, j, a)[2]), a) = lo(Tile(ev, at(i+1, j, a)[1], at(i+1, j, a)[2]), a)>>,
        <<"padding_as_requested", \A k \in all, a \in 1..2 : ev.res[k].pads[a] >= 0 /\ ev.res[k].pads[a] \in {ev.pads[a]-1, ev.pads[a]}>>,
        <<"data_from_padded_tile", \A k \in all : ev.res[k].select = ev.res[k].grid>>,
        <<"same_options", \A k \in all : ev.res[k].options = ev.options>>,
        <<"tiles_have_own_names", Cardinality({ev.res[k].name : k \in all}) = Len(ev.res)>> >>
(* Files reported by a run, and those that are there: a tile's files hold the *)
(* tile.                                                                      *)
FileClauses(ev) ==
  << <<"every_tile_once", {ev.res.tile[k] : k \in 1..Len(ev.res.tile)} = (0..ev.s-1) \X (0..ev.s-1) /\ Len(ev.res.tile) = ev.s*ev.s>>,
     <<"reports_written_files", SetOf(FlattenSeq(ev.res.names)) = SetOf(ev.res.found)>>,
     <<"one_file_per_frame", \A k \in 1..Len(ev.res.names) : Len(ev.res.names[k]) = ev.frames>>,
     <<"files_not_shared", Len(FlattenSeq(ev.res.names)) = Cardinality(SetOf(FlattenSeq(ev.res.names)))>> >>
(* Outputs held back until they are asked for.                                *)
TrimClauses(ev) ==
  LET want == IF ev.writes THEN ev.calls ELSE <<>> IN
  << <<"held_back", ev.res.early = 0>>,
     <<"every_output_once", Len(ev.res.written) = Len(want)>>,
     <<"cut_to_the_tile", \A k \in 1..Len(want) : k <= Len(ev.res.written) => ev.res.written[k] = TrimmedOutput(want[k], ev.pads)>>,
     <<"names_reported", ev.res.names = [k \in 1..Len(want) |-> want[k].name]>> >>
Clauses(ev) == CASE ev.op = "bounds" -> BoundClauses(ev)
                 [] ev.op = "tiles" -> TileClauses(ev)
                 [] ev.op = "trim" -> TrimClauses(ev)
                 [] ev.op = "files" -> FileClauses(ev)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
