---------------------------- MODULE TraceImagery ----------------------------
(* Judges recorded imagery files. Positions are in 0.1 microradian.           *)
EXTENDS Imagery, TraceBase
VARIABLE l
Names == SetOf(Products)
(* Each read value with the value of its cell.                                *)
Reads(ev, got, want, f) ==
  LET slack == IF Over(f) = "" THEN 1 ELSE 2
  IN IF ev.scaled THEN ReadsAs(got, want, slack) ELSE ReadsPlain(got, want, slack)
(* Codes are of use only where values were encoded.                           *)
WriteClauses(ev) ==
  LET want == TLCEval([k \in 1..ev.frames |-> [f \in Names |-> [i \in 1..ev.nx |-> [j \in 1..ev.ny |-> ValueAt(ev.grids, f, k, i, j)]]]])
      right == Len(ev.res) = ev.frames
      (* the frames of the files, by their times                              *)
      frame(file) == {k \in 1..ev.frames : file.start = ev.times[k] /\ file.end = ev.times[k+1]}
      dated == right /\ \A n \in 1..Len(ev.res) : frame(ev.res[n]) # {}
      cols(file) == TLCEval([c \in 1..Len(file.x) |-> CellAt(ev.xedges, file.x[c])])
      rows(file) == TLCEval([r \in 1..Len(file.y) |-> CellAt(ev.yedges, file.y[r])])
      placed == dated /\ \A n \in 1..Len(ev.res) :
                  /\ cols(ev.res[n]) = Columns(ev.nx, ev.pad[1]) /\ rows(ev.res[n]) = RowsDown(ev.ny, ev.pad[2])
      whole == placed /\ \A n \in 1..Len(ev.res) : \A f \in Names :
                  /\ Len(ev.res[n].values[f]) = Len(ev.res[n].y)
                  /\ \A r \in 1..Len(ev.res[n].y) : Len(ev.res[n].values[f][r]) = Len(ev.res[n].x)
      every(test(_, _, _)) == whole => \A n \in 1..Len(ev.res) :
         LET file == ev.res[n]  k == CHOOSE k \in frame(file) : TRUE  cs == cols(file)  rs == rows(file)
         IN \A f \in Names : \A r \in 1..Len(rs), c \in 1..Len(cs) :
              test(f, file.values[f][r][c], want[k][f][cs[c]][rs[r]])
      something(f, got, v) == v > 0 => got > 0
      nothing(f, got, v) == v = 0 => got = 0
      direct(f, got, v) == Over(f) = "" => Reads(ev, got, v, f)
      average(f, got, v) == Over(f) # "" => Reads(ev, got, v, f)
      inrange(f, got, v) == ev.scaled => got % Unit = 0 /\ got <= Top * Unit
  IN << <<"one_file_per_frame", right /\ Cardinality({ev.res[n].start : n \in 1..Len(ev.res)}) = Len(ev.res)>>,
        <<"times_of_the_frame", right => dated>>,
        <<"cells_in_place", dated => placed>>,
        <<"whole_images", placed => whole>>,
        <<"data_never_empty", every(something)>>,
        <<"no_data_is_empty", every(nothing)>>,
        <<"values_kept", every(direct)>>,
        <<"averages_by_count", every(average)>>,
        <<"multiples_of_the_scale", every(inrange)>>,
        <<"integers_as_written", ev.scaled => \A n \in 1..Len(ev.res) : \A f \in Names :
             LET v == ev.res[n].values[f]  c == ev.res[n].codes[f]
             IN /\ Len(c) = Len(v)
                /\ \A r \in 1..Len(v) : c[r] = [k \in 1..Len(v[r]) |-> v[r][k] \div Unit]>>,
        <<"grids_unchanged", ev.after = "same">>,
        <<"same_again", ev.again => ev.res = ev.repeat>> >>
(* One image. Halfway values may go either way.                               *)
EncodeClauses(ev) ==
  LET v == ev.values  got == ev.res.values
      shaped == Len(got) = Len(v) /\ \A r \in 1..Len(v) : Len(got[r]) = Len(v[r])
      low == (ev.offset + 1) * Unit
      right(x, y) == IF x = 0 THEN y = 0
                     ELSE IF ev.bits = 0 THEN y = x
                     ELSE IF x <= low THEN y = low
                     ELSE y % Unit = 0 /\ 2 * (y - x) <= Unit /\ 2 * (x - y) <= Unit
  IN << <<"whole_images", shaped>>,
        <<"values_kept", shaped => \A r \in 1..Len(v) : \A c \in 1..Len(v[r]) : right(v[r][c], got[r][c])>>,
        <<"integers_of_the_kind", ev.res.bits = ev.bits>>,
        <<"described_as_given", ev.res.said = ev.said>> >>
Clauses(ev) == CASE ev.op = "write" -> WriteClauses(ev)
                 [] ev.op = "encode" -> EncodeClauses(ev)
TraceInit == l = 1 /\ grid = <<>> /\ nx = 0 /\ ny = 0 /\ pad = <<>> /\ files = <<>> /\ written = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Report(ev, Judge(ev, Violated(Clauses(ev))))
             /\ l' = l + 1 /\ UNCHANGED ivars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, ivars>>
=============================================================================
