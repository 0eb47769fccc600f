------------------------------ MODULE TraceBase ------------------------------
(* Trace validation skeleton. A property module supplies
     Init0(tr)        abstract state before the first event of trace tr
     Viol(tr, s, e)   names of the clauses event e breaks in state s
     Next0(tr, s, e)  abstract state after e
   and EXTENDS this module through the operators passed to TStep.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE DotTo(_, _, _)
DotTo(f, g, n) == IF n = 0 THEN 0 ELSE f[n] * g[n] + DotTo(f, g, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the difference of numbers of opposite sign may exceed what TLC can represent *)
Near(a, b, tol) == IF (a < 0) = (b < 0) THEN Abs(a - b) <= tol
                   ELSE Abs(a) <= tol /\ Abs(b) <= tol /\ Abs(a - b) <= tol
NAN == 2000000001            \* harness encoding of a not-a-number
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
