----------------------------- MODULE MCUnsigned -----------------------------
EXTENDS Unsigned
CONSTANT Bits
VARIABLE done   \* 0 stored, 1 read, 2 corrected, 3 corrected again
Init == stored \in 0..Pow2(Bits)-1 /\ scale \in 1..3 /\ offset \in {-4, 0, 7} /\ value = 0 /\ done = 0
Next == /\ done < 3 /\ done' = done + 1
        /\ IF done = 0 THEN ReadSigned(Bits) ELSE Correct(Bits)
        /\ UNCHANGED <<stored, scale, offset>>
Spec == Init /\ [][Next]_<<uvars, done>>
Lossless == done >= 2 => value = Scaled(stored, scale, offset)
=============================================================================
