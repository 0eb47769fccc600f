---------------------------- MODULE MaterialTrace ----------------------------
(* Validation of element energies, stresses, system matrices and derivatives returned by the
   real functions. tr.el[i] are the integer corners of element i, kind "tet" or "hex".      *)
EXTENDS TraceBase, MaterialCore
VARIABLES tid, l, s
N(tr) == Len(tr.el)
E5(e, i) == Stiff(e.model, e.r[i], e.E0, e.Emin, e.p)
Close(x, y, tol) == x # NAN /\ Near(x, y, tol + Abs(y) \div 50000)
Pure(e) == Clause("inputs_kept", ~e.changed)

(* e.v[case][element], scaled by 10^5: half stress times strain, integrated *)
Energy(tr, e) ==
  Clause("shape", Len(e.v) = Len(e.G) /\ \A a \in DOMAIN e.v : Len(e.v[a]) = N(tr)) \cup
  (IF Len(e.v) # Len(e.G) \/ \E a \in DOMAIN e.v : Len(e.v[a]) # N(tr) THEN {} ELSE
   Clause("element_strain_energy", \A a \in DOMAIN e.G : \A i \in 1..N(tr) :
     LET d == Vol(tr.el[i])
         x == DivRound(DivRound(E5(e, i) * Work(e.G[a], e.G[a], e.nu), 160) * d, VDen(tr.kind)) IN
     Close(e.v[a][i], x, 2 + d)))

(* e.v[element][point], 9 numbers scaled by 1000: the stress at every integration point *)
StressAt(tr, e) ==
  Clause("stress_per_integration_point",
    e.shape = <<3, 3, N(tr), e.nqp>> /\ Len(e.v) = N(tr) /\ \A i \in DOMAIN e.v : Len(e.v[i]) = e.nqp) \cup
  Clause("stress", \A i \in DOMAIN e.v : i <= N(tr) /\ \A q \in DOMAIN e.v[i] : \A a, b \in I3 :
     Close(e.v[i][q][3 * (a - 1) + b], DivRound(E5(e, i) * Stress(e.G[1], e.nu)[a][b], 4000), 2))

(* integer stress tensors e.S and their von Mises stress e.v, scaled by 100 *)
Mises(e) ==
  Clause("von_mises", Len(e.v) = Len(e.S) /\ \A i \in DOMAIN e.S :
     e.v[i] # NAN /\ e.v[i] >= 0 /\ Abs(Sq(e.v[i]) - 5000 * Mises2(e.S[i])) <= 2 * e.v[i] + 2)

(* e.b[a][b] = u_a K u_b for the affine fields u_a with gradient G[a], scaled by 10^4 *)
RECURSIVE Total(_, _, _, _, _)
Total(tr, e, a, b, i) == IF i = 0 THEN 0 ELSE
  Total(tr, e, a, b, i - 1) +
  DivRound(DivRound(E5(e, i) * Work(e.G[a], e.G[b], e.nu), 800) * Vol(tr.el[i]), VDen(tr.kind))
Elastic(tr, e) ==
  Clause("matrix_of_the_material_law", \A a, b \in DOMAIN e.G :
     Close(e.b[a][b], Total(tr, e, a, b, N(tr)), (Abs(Len(tr.el)) * 8)))
  \cup Clause("matrix_symmetric", e.asym = 0)
  \cup Clause("rigid_motions_cost_nothing", \A i \in DOMAIN e.rigid : Abs(e.rigid[i]) <= 1)
  (* for any displacement: never negative, twice the energy returned for it *)
  \cup Clause("matrix_matches_energies", \A i \in DOMAIN e.any :
         e.any[i].quad >= -1 /\ Close(e.any[i].quad, 2 * e.any[i].energy, 4))
  \cup Clause("couples_only_nodes_sharing_an_element", e.stray = 0)

RECURSIVE TotalH(_, _, _, _, _)
TotalH(tr, e, a, b, i) == IF i = 0 THEN 0 ELSE
  TotalH(tr, e, a, b, i - 1) +
  DivRound(DivRound(E5(e, i) * Dot3(e.g[a], e.g[b]), 10) * Vol(tr.el[i]), VDen(tr.kind))
Conduct(tr, e) ==
  Clause("matrix_of_the_conduction_law", \A a, b \in DOMAIN e.g :
     Close(e.b[a][b], TotalH(tr, e, a, b, N(tr)), (Abs(Len(tr.el)) * 8)))
  \cup Clause("matrix_symmetric", e.asym = 0)
  \cup Clause("uniform_temperature_costs_nothing", \A i \in DOMAIN e.rigid : Abs(e.rigid[i]) <= 1)
  \cup Clause("matrix_matches_energies", \A i \in DOMAIN e.any :
         e.any[i].quad >= -1 /\ Close(e.any[i].quad, 2 * e.any[i].energy, 4))
  \cup Clause("couples_only_nodes_sharing_an_element", e.stray = 0)

(* per case and element, scaled by 10^5 (temperatures by 1000) *)
Rows(tr, e, m) == Len(e.v) = m /\ \A a \in DOMAIN e.v : Len(e.v[a]) = N(tr)
Heat(tr, e) ==
  IF ~Rows(tr, e, Len(e.g)) THEN {"shape"} ELSE
  Clause("element_thermal_energy", \A a \in DOMAIN e.g : \A i \in 1..N(tr) :
     Close(e.v[a][i], DivRound(DivRound(E5(e, i) * Dot3(e.g[a], e.g[a]), 2) * Vol(tr.el[i]), VDen(tr.kind)),
           2 + Vol(tr.el[i])))
Product(tr, e) ==
  IF ~Rows(tr, e, Len(e.g)) THEN {"shape"} ELSE
  Clause("gradient_product", \A a \in DOMAIN e.g : \A i \in 1..N(tr) :
     Close(e.v[a][i], DivRound(EU * Dot3(e.g[a], e.h[a]) * Vol(tr.el[i]), VDen(tr.kind)), 2))

(* sum of the corner temperatures g.x + c of an element *)
RECURSIVE CornerSum(_, _, _, _)
CornerSum(q, g, c, n) == IF n = 0 THEN 0 ELSE CornerSum(q, g, c, n - 1) + Dot3(g, q[n]) + c
(* integral of the temperature excess, times Len(q) and VDen *)
Excess(tr, i, g, c, env) ==
  LET q == tr.el[i] IN (CornerSum(q, g, c, Len(q)) - Len(q) * env) * Vol(q)
AvgTemp(tr, e) ==
  IF ~Rows(tr, e, Len(e.g)) THEN {"shape"} ELSE
  Clause("element_temperature_excess", \A a \in DOMAIN e.g : \A i \in 1..N(tr) :
     LET x == Excess(tr, i, e.g[a], e.c[a], e.env) IN
     Close(e.v[a][i], DivRound(1000 * x, Len(tr.el[i]) * VDen(tr.kind)), 2))

(* the interface is as dense as the density changes: e.w[element], an integer slope *)
RECURSIVE WSum(_, _, _, _)
WSum(tr, e, a, i) == IF i = 0 THEN 0 ELSE
  WSum(tr, e, a, i - 1) + e.w[i] * (IF a = 0 THEN Vol(tr.el[i]) ELSE Excess(tr, i, e.g[a], e.c[a], e.env))
Exchange(tr, e) ==
  LET den == WSum(tr, e, 0, N(tr)) * (IF tr.kind = "tet" THEN 4 ELSE 8)
      val(a) == LET x == -e.env * e.h * WSum(tr, e, a, N(tr)) IN
                (x \div den) * 1000 + DivRound((x % den) * 1000, den) IN
  Clause("heat_exchange", \A a \in DOMAIN e.g : IF den = 0 THEN e.v[a] = 0 ELSE Close(e.v[a], val(a), 2))

Law(e) ==
  Clause("interpolation", Len(e.v) = Len(e.r) /\ \A i \in DOMAIN e.r : Close(e.v[i], E5(e, i), 1))
Deriv(e) ==
  Clause("derivative_of_the_interpolation", Len(e.v) = Len(e.r) /\ \A i \in DOMAIN e.r :
     \/ e.model = "simp" /\ e.r[i] = 0 /\ e.p > 1 /\ Abs(e.v[i]) <= 10
     \/ Close(e.v[i], DStiff(e.model, e.r[i], e.E0, e.Emin, e.p), 2))
(* -2 U E' / E of element energies e.U, scaled by 100 *)
DComp(e) ==
  Clause("compliance_derivative", Len(e.v) = Len(e.r) /\ \A i \in DOMAIN e.r :
     LET E3 == E5(e, i) \div 100  D3 == DStiff(e.model, e.r[i], e.E0, e.Emin, e.p) \div 100 IN
     \/ e.r[i] = 0 /\ (e.Emin = 0 \/ e.model = "simp")
     \/ E3 < 100
     \/ e.v[i] <= 0 /\ Abs((e.v[i] * E3) + 200 * e.U[i] * D3) <= E3 + 200 * e.U[i] + Abs(e.v[i]) + 2)
Lame(e) ==
  Clause("lame_parameters",
     Close(40 * e.mu, LameA(e.nu) * e.E * EU, 100) /\ Close(40 * e.lam, 2 * LameB(e.nu) * e.E * EU, 100))

Viol(tr, st, e) ==
  CASE e.op = "energy" -> Energy(tr, e) \cup Pure(e)
    [] e.op = "stress" -> StressAt(tr, e) \cup Pure(e)
    [] e.op = "mises" -> Mises(e) \cup Pure(e)
    [] e.op = "elastic" -> Elastic(tr, e) \cup Pure(e)
    [] e.op = "conduct" -> Conduct(tr, e) \cup Pure(e)
    [] e.op = "heat" -> Heat(tr, e) \cup Pure(e)
    [] e.op = "product" -> Product(tr, e) \cup Pure(e)
    [] e.op = "avgtemp" -> AvgTemp(tr, e) \cup Pure(e)
    [] e.op = "exchange" -> Exchange(tr, e) \cup Pure(e)
    [] e.op = "law" -> Law(e) \cup Pure(e)
    [] e.op = "deriv" -> Deriv(e) \cup Pure(e)
    [] e.op = "dcomp" -> DComp(e) \cup Pure(e)
    [] e.op = "lame" -> Lame(e)
    [] OTHER -> {"raised"}
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = 0
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = s
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
