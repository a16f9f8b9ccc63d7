----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: reading the recorded events and   *)
(* reporting the clauses of the specification that an event violates.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* The violated clauses among <<name, holds>> pairs.                          *)
Violated(clauses) == {c[1] : c \in {clauses[i] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}}

(* An exception, or no answer in time, in a call that is specified to answer. *)
Judge(ev, clauses) == IF ev.err # "" THEN {"answers"} ELSE clauses

Report(ev, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([n |-> ev.n, bad |-> bad]))

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == AbsI(a - b) <= tol
SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k-1)
SumSeq(s) == SumTo(s, Len(s))
CountIn(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
=============================================================================
