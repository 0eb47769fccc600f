------------------------------ MODULE ProjTrace ------------------------------
(* Validation of values returned by the real projection functions (scaled by 10^6). *)
EXTENDS TraceBase, ProjCore
VARIABLES tid, l, s
RU == 1000000
Fin(q) == \A i \in 1..Len(q) : q[i] # NAN
At(x, x0, y) == \A i \in 1..Len(x) : x[i] = x0 => Abs(y[i] - x0) <= 2

(* exact values *)
Exact(e) == Clause("smoothed_step", \A i \in 1..Len(e.f) :
   LET d == Den(e.b, e.m, e.e) IN
   Abs((e.f[i] \div 100) * d - Num(e.b, e.e, e.r[i]) * U) <= 6 * U)

(* increasing inputs x; f values, g slopes, of one sharpness and threshold *)
Curve(tr, e) ==
  LET n == Len(e.x)  x == e.x  f == e.f  g == e.g  dx(i) == x[i + 1] - x[i] IN
  IF ~Fin(f) \/ ~Fin(g) THEN {"finite"} ELSE
  Clause("range", \A i \in 1..n : f[i] >= -1 /\ f[i] <= RU + 1)
  \cup Clause("zero_to_zero", At(x, 0, f))
  \cup Clause("one_to_one", \A i \in 1..n : x[i] = RU => Abs(f[i] - RU) <= e.endtol)
  \cup Clause("monotone", \A i \in 1..(n - 1) : f[i + 1] >= f[i] - 1)
  \cup Clause("slope_not_negative", \A i \in 1..n : g[i] >= 0)
  (* equal steps of 1/h: the slope falls away from the threshold, so a secant lies between the end slopes *)
  \cup Clause("slope", \A i \in 1..(n - 1) :
         (x[i + 1] <= e.eta \/ x[i] >= e.eta) =>
           /\ e.h * (f[i + 1] - f[i]) <= Max2(g[i], g[i + 1]) + 2 * e.h + Max2(g[i], g[i + 1]) \div 100000
           /\ e.h * (f[i + 1] - f[i]) >= Min2(g[i], g[i + 1]) - 2 * e.h - Min2(g[i], g[i + 1]) \div 100000)
  (* beta |x - eta| >= 8: fully pushed apart *)
  \cup Clause("pushed_apart", \A i \in 1..n :
         (Abs(x[i] - e.eta) \div 1000) * e.beta10 >= 80 * 1000 =>
           IF x[i] < e.eta THEN f[i] <= 2 ELSE f[i] >= RU - 2)
  \cup Clause("threshold_between", \A i \in 1..n : x[i] = e.eta =>
         f[i] >= Min2(e.eta, RU \div 2) - 2 /\ f[i] <= Max2(e.eta, RU \div 2) + 2)
  \cup Clause("mirror", \A i \in 1..n : Abs(f[i] + e.mirror[i] - RU) <= 2 + e.endtol)
  \cup Clause("nearly_linear", e.beta10 > 0 \/ \A i \in 1..n : Abs(f[i] - x[i]) <= 1000)

(* another call, on inputs with values w and slopes v according to the pure functions *)
Call(e) ==
  Clause("agrees_with_pure", e.got = e.want \/
     (Len(e.got) = Len(e.want) /\ \A i \in 1..Len(e.got) :
        Abs(e.got[i] - e.want[i]) <= 1 + Abs(e.want[i]) \div 100000))
  \cup Clause("shape", e.shape = e.inshape)
  \cup Clause("input_kept", ~e.changed)
  \cup Clause("buffer_filled", e.filled)

Viol(tr, st, e) ==
  CASE e.op = "exact" -> IF Fin(e.f) THEN Exact(e) ELSE {"finite"}
    [] e.op = "curve" -> Curve(tr, e)
    [] e.op = "call" -> Call(e)
    [] OTHER -> {"raised"}
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = 0
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = s
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
