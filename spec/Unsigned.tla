------------------------------ MODULE Unsigned ------------------------------
(* Unsigned integers that are stored, and were read, as signed ones           *)
(* (glmtools.io.glm.fix_unsigned and fix_event_locations).                    *)
EXTENDS Integers, Sequences
Pow2(n) == 2^n
AsSigned(u, bits) == IF u >= Pow2(bits-1) THEN u - Pow2(bits) ELSE u
AsUnsigned(s, bits) == s % Pow2(bits)
Scaled(s, scale, offset) == offset + scale * s
(* What the correction does: remove the scaling, reinterpret, scale again.    *)
Corrected(v, scale, offset, bits) == Scaled(AsUnsigned((v - offset) \div scale, bits), scale, offset)

(* Event positions, in 1e-6 degrees; a step is 0.00203128 degrees.            *)
Steps(raw) == raw * 2031 + (raw * 28) \div 100
EventLat(raw) == -66560000 + Steps(raw)
EventLon(raw) == -156060000 + Steps(raw)

VARIABLES stored, scale, offset, value
uvars == <<stored, scale, offset, value>>
ReadSigned(bits) == value' = Scaled(AsSigned(stored, bits), scale, offset)
Correct(bits) == value' = Corrected(value, scale, offset, bits)
=============================================================================
