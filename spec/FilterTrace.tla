----------------------------- MODULE FilterTrace -----------------------------
(* Validation of recorded calls of the real filters. Values are scaled by 10^6, inputs of
   forward and gradient by 10; centres by 4, radii by 400, volumes by 6.                   *)
EXTENDS TraceBase, FilterCore
VARIABLES tid, l, s
RU == 1000000
Fin(q) == \A i \in 1..Len(q) : Abs(q[i]) <= 100 * RU
FinM(M) == \A j \in 1..Len(M) : Fin(M[j])
D(tr) == SeqSet(tr.design)
N(tr) == Len(tr.ctr)
Spatial(tr) == tr.kind = "spacial"
Fine(ctr) == [i \in 1..Len(ctr) |-> <<100 * ctr[i][1], 100 * ctr[i][2], 100 * ctr[i][3]>>]
TolOf(n) == 12 * n + 20        \* of a product with a recorded matrix, scale 10^7

(* response matrix of a freshly built filter of radius e.r *)
Matrix(tr, e) ==
  LET M == e.M  n == N(tr)  d == D(tr) IN
  IF ~FinM(M) \/ ~Fin(e.base) THEN {"finite"} ELSE
  IF Spatial(tr) THEN
    Clause("averages", Averages(M, d, RU, n))
    \cup Clause("passive_do_not_leak", NoLeak(M, d))
    \cup Clause("locality", Local(M, d, Fine(tr.ctr), e.r))
    \cup Clause("weights_fall_with_distance", FallsWithDistance(M, d, tr.ctr, 2))
    \cup Clause("zero_to_zero", \A i \in d : e.base[i] = 0)
  ELSE Clause("passive_do_not_leak", NoLeak(M, d))
    \cup Clause("constants", \A i \in 1..n :
           Abs(RowDot(M, i, Ones(n), n) + e.base[i] - RU) <= n + 2)
    \cup Clause("no_own_contribution", d # 1..n \/ \A i \in d : Abs(e.base[i]) <= 1)
    \cup Clause("conserves_total", d # 1..n \/ Conserves(M, tr.vol, RU, SumSeq(tr.vol)))

Forward(tr, st, e) ==
  IF ~Fin(e.y) \/ ~Fin(e.ref) THEN {"finite"} ELSE
  LET m == st.mats[st.r]  n == N(tr)  d == D(tr) IN
  Clause("input_kept", ~e.changed)
  \cup Clause("as_freshly_built", \A i \in 1..n : Abs(e.y[i] - e.ref[i]) <= 1)
  \cup Clause("linear", \A i \in d :
         Abs(RowDot(m.M, i, e.x, n) + 10 * m.base[i] - 10 * e.y[i]) <= TolOf(n))
  \cup Clause("passive", \A i \in 1..n \ d :
         IF Spatial(tr) THEN 10 * e.y[i] = e.x[i] * RU ELSE Abs(e.y[i] - RU) <= 1)
  \cup (IF Spatial(tr)
        THEN Clause("range", \A i \in d : /\ \E j \in d : 10 * e.y[i] >= e.x[j] * RU - 10
                                          /\ \E j \in d : 10 * e.y[i] <= e.x[j] * RU + 10)
        ELSE IF tr.chain /\ st.r <= 700 /\ st.r % 100 = 0
        THEN Clause("screened_poisson",
               ChainOk([i \in 1..n |-> IF i \in d THEN e.x[i] * (RU \div 10) ELSE RU], e.y, st.r \div 100, n - Cardinality(d), RU))
        ELSE {})

Gradient(tr, st, e) ==
  IF ~Fin(e.g) \/ ~Fin(e.ref) THEN {"finite"} ELSE
  LET m == st.mats[st.r]  n == N(tr)  d == D(tr) IN
  Clause("input_kept", ~e.changed)
  \cup Clause("as_freshly_built", \A i \in 1..n : Abs(e.g[i] - e.ref[i]) <= 1)
  \cup (IF Spatial(tr)
        THEN Clause("adjoint", \A j \in d :
               Abs(ColDot(m.M, j, OnDesign(e.v, d, 0), n) - 10 * e.g[j]) <= TolOf(n))
        ELSE Clause("non_positive", (\A i \in d : e.v[i] <= 0) => \A i \in 1..n : e.g[i] <= 0)
             \cup Clause("same_smoothing", \A i \in d :
               LET w == RowDot(m.M0, i, OnDesign(e.v, d, 0), n) IN
               (\A k \in d : e.v[k] <= 0) => Abs((IF w > 0 THEN 0 ELSE w) - 10 * e.g[i]) <= TolOf(n)))

Init0(tr) == [r |-> tr.r0, mats |-> <<>>]
Viol(tr, st, e) ==
  CASE e.op = "matrix" -> Matrix(tr, e)
    [] e.op = "radius" -> {}
    [] e.op = "forward" -> Forward(tr, st, e)
    [] e.op = "gradient" -> Gradient(tr, st, e)
    [] OTHER -> {"raised"}
Next0(tr, st, e) ==
  CASE e.op = "matrix" ->
         [st EXCEPT !.mats = [q \in DOMAIN st.mats \cup {e.r} |->
            IF q = e.r THEN [M |-> e.M, base |-> e.base, M0 |-> e.M0] ELSE st.mats[q]]]
    [] e.op = "radius" -> [st EXCEPT !.r = e.r]
    [] OTHER -> st

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = Init0(Traces[tid])
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Next0(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
