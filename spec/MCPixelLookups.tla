--------------------------- MODULE MCPixelLookups ---------------------------
EXTENDS PixelLookups
P(x, y, k) == [lon |-> x, lat |-> y, known |-> k]
Tables == {t \in {<< <<P(0, 0, a), P(1, 3, b)>>, <<P(4, 0, c), P(3, 3, d)>> >> : a, b, c, d \in BOOLEAN} : Pixels(t) # {}}
Spots == {<<0, 0>>, <<2, 1>>, <<5, 5>>, <<-9, 2>>}
Init == held = NoTable /\ files = [f \in {1, 2} |-> NoTable] /\ answer = {} /\ everSaved = [f \in {1, 2} |-> {}]
Few == {t \in Tables : Cardinality(Pixels(t)) = 3}
Next == \/ \E t \in Few : Build(t)
        \/ \E f \in {1, 2} : Save(f) \/ Load(f)
        \/ \E v \in Spots : Ask(v)
Small == \A f \in {1, 2} : Cardinality(everSaved[f]) <= 2
Spec == Init /\ [][Next]_pvars
OnlyKnown == answer # {} => answer \subseteq Pixels(held)
LastKept == \A f \in {1, 2} : files[f] # NoTable => files[f] \in everSaved[f]
(* There is an answer for every position.                                     *)
Answers == held # NoTable => \A v \in Spots : NearestPixels(held, v) # {}
(* A pixel is nearest to itself.                                              *)
Itself == held # NoTable => \A p \in Pixels(held) : p \in NearestPixels(held, Pos(held, p))
=============================================================================
