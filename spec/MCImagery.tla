----------------------------- MODULE MCImagery -----------------------------
EXTENDS Imagery
Vals(n, m) == [1..n -> [1..m -> {0, 7}]]
Init == \E n \in 1..3, m \in 1..2, fr \in 1..2, p, q \in {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>} :
          /\ n > p[1]+p[2] /\ m > q[1]+q[2]
          /\ nx = n /\ ny = m /\ pad = <<p, q>>
          /\ grid \in [1..fr -> Vals(n, m)] /\ files = << >> /\ written = 0
Next == WriteNext
Spec == Init /\ [][Next]_ivars
(* Every cell is found at its coordinate in the file of its frame.            *)
InPlace == \A n \in 1..Len(files) : LET f == files[n] IN
   \A r \in 1..Len(f.rows), c \in 1..Len(f.cols) : f.image[r][c] = grid[f.frame][f.cols[c]][f.rows[r]]
UpsideUp == \A n \in 1..Len(files) : \A r \in 1..Len(files[n].rows)-1 : files[n].rows[r] > files[n].rows[r+1]
Once == Len(files) >= NFrames => {files[n].frame : n \in 1..NFrames} = 1..NFrames
Again == \A n \in 1..Len(files) : n > NFrames => files[n] = files[n - NFrames]
(* Coordinates of the cells of an image find the cells.                       *)
ASSUME \A n \in 1..4, a, b \in 0..1 : LET e == [k \in 1..n+1 |-> 10*k]  cs == Columns(n, <<a, b>>) IN
         n > a+b => /\ \A c \in 1..Len(cs) : \A o \in -4..4 : CellAt(e, 10*cs[c] + 5 + o) = cs[c]
                    /\ CellAt(e, 9) = 0 /\ CellAt(e, 10*n+10) = 0
ASSUME \A t, c \in 0..40 : (Average(t, c) = 0) <=> (t = 0 \/ c = 0)
(* The encoding keeps every value to half a step and never loses one.         *)
ASSUME \A v \in 0..2000 : ReadsAs(Decode(Code(v)), v, 0)
ASSUME \A v \in (Top-3)*Unit..Top*Unit : Code(v) <= Top /\ ReadsAs(Decode(Code(v)), v, 0)
ASSUME \A v \in 0..1999 : Code(v) <= Code(v+1)
ASSUME \A v \in 1..2000, g \in {0, Unit, 2*Unit, 3*Unit} : ReadsAs(g, v, 0) => g # 0
ASSUME \A t \in 0..60, c \in 0..40 : LET a == Average(t, c) IN c > 0 /\ a # 1 => 2 * (a*c - t*1024) <= c /\ 2 * (t*1024 - a*c) <= c
=============================================================================
