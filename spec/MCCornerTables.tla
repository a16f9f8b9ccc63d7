--------------------------- MODULE MCCornerTables ---------------------------
EXTENDS CornerTables
Xs == {<<0, 3, 5>>, <<5, 3, 0>>}
Ys == {<<0, 2>>, <<4, 0>>}
Fields == {<<1, 2, 0>>, <<0, 1, -1>>, <<-3, 0, 2>>}
Affine(f, xs, ys) == [i \in 1..Len(ys) |-> [j \in 1..Len(xs) |->
   [at |-> <<xs[j], ys[i]>>, off |-> << <<AffineOff(f, <<xs[j], ys[i]>>), 0>> >>]]]
Free(g, xs, ys) == [i \in 1..Len(ys) |-> [j \in 1..Len(xs) |->
   [at |-> <<xs[j], ys[i]>>, off |-> << <<g[(i-1)*Len(xs) + j], 0>> >>]]]
Init == /\ table \in {Affine(f, x, y) : f \in Fields, x \in Xs, y \in Ys}
                     \cup {Free(g, x, y) : g \in [1..6 -> {0, 2}], x \in Xs, y \in Ys}
        /\ where = <<-1, -1>>
Next == where[1] < 6 /\ where[2] < 5 /\ Move
Spec == Init /\ [][Next]_cvars
Tris == UNION {{tri \in TriNodes(c) : InTri(At(table, tri[1]), At(table, tri[2]), At(table, tri[3]), where)} :
               c \in CellsAround(table, where)}
(* Whichever way the cells are cut into triangles, interpolants are within the *)
(* envelope and reproduce even growth.                                         *)
Interpolants == Inside(table, where) =>
  /\ Tris # {}
  /\ \A tri \in Tris : LET q == TriValue(table, tri, where, 1, 1)  s == IF q.den > 0 THEN 1 ELSE -1
                       IN InEnvelope(table, where, 1, 1, s*q.num, s*q.den)
Even == Inside(table, where) => \A f \in Fields : IsAffine(table, f, 1, 1) =>
  \A tri \in Tris : LET q == TriValue(table, tri, where, 1, 1) IN q.num = q.den * AffineOff(f, where)
(* Outside, the nearest node lies on the border.                               *)
Border == Outside(table, where) => \A n \in Nearest(table, where) :
             n[1] \in {1, Len(table)} \/ n[2] \in {1, Len(table[1])}
Exclusive == ~(Inside(table, where) /\ Outside(table, where))
=============================================================================
