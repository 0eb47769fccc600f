------------------------------ MODULE SolveTrace ------------------------------
(* Validation of recorded state solves, objectives, energies and sensitivities. Relative
   measures are scaled by 10^9 (residuals) or 10^6 (values, over the largest one).          *)
EXTENDS TraceBase, SolveCore
VARIABLES tid, l, s
RU == 1000000
Fin(q) == \A i \in 1..Len(q) : Abs(q[i]) <= 2000 * RU
AllNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol

(* ---- C14 ---- *)
Outcome(e) == IF e.ok THEN "solved" ELSE "error"
Solved(e) ==
  Clause("outcome", Outcome(e) \in (IF e.backend \in External /\ Contradicts(e.backend, e.opts) THEN {"error"}
                                     ELSE Allowed(e.phys, e.backend, e.installed, e.fault, e.n)))
  \cup (IF ~e.ok THEN {} ELSE
     Clause("backend", SeqSet(e.used) \subseteq MayUse(e.backend))
     \cup Clause("every_case", Len(e.pres) = e.n /\ Len(e.resid) = e.n)
     \cup Clause("prescribed_values", \A i \in 1..Len(e.pres) : e.pres[i] <= e.tol)
     \cup Clause("equilibrium", \A i \in 1..Len(e.resid) : e.resid[i] <= e.tol)
     \cup Clause("as_solved_alone", \A i \in 1..Len(e.alone) : e.alone[i] <= e.alonetol)
     \cup Clause("wrapper_compliance", AllNear(e.c, e.work, 100))
     \cup (IF e.backend \notin External THEN {} ELSE
             Clause("petsc_options", /\ e.ksp = KspOf(e.backend, e.opts) /\ e.pc = PcOf(e.backend, e.opts)
                                     /\ e.factor = (IF e.opts = "factor" THEN "mumps" ELSE "")
                                     /\ e.prefix = (IF e.opts = "own" THEN "a_" ELSE "")
                                     /\ e.setopts = (e.opts # "own")))
     \cup Clause("density_kept", ~e.changed))
BarElastic(e) ==
  LET n == Len(e.rho) IN
  IF ~Fin(e.u) \/ ~Fin(e.c) THEN {"finite"} ELSE
  Clause("exact_bar", \A i \in 1..Len(e.u) : LET w == BarU(e.law, e.rho, e.p, e.plane[i]) IN
            Abs(e.u[i] - w) <= 3 + w \div 20000)
BarCompliance(e) == IF ~Fin(e.c) \/ ~Fin(e.en) THEN {"finite"} ELSE
  LET n == Len(e.rho)  w == BarU(e.law, e.rho, e.p, n) IN
  Clause("exact_bar_compliance", Abs(e.c[1] - w) <= 3 + w \div 20000)
  \cup Clause("exact_bar_energy", \A i \in 1..n : LET f == Flex(e.law, e.rho[i], e.p) IN
            Abs(2 * e.en[i] - f) <= 4 + f \div 20000)
(* heated bar: T0 at one end, convection with h/10 to tenv at the other, uniform density:
   T(i) = t0 + (tenv - t0) i f / (n f + 10/h) with f = 1/k *)
BarHeat(e) ==
  LET f == Flex(e.law, e.r, e.p) \div 100  n == e.len        \* 10^3 / k
      den == n * f + 10000 \div e.h IN
  IF ~Fin(e.u) THEN {"finite"} ELSE
  Clause("exact_heated_bar", \A i \in 1..Len(e.u) :
     Abs((e.u[i] - e.t0 * 1000) * (den \div 10) - (e.tenv - e.t0) * e.plane[i] * f * 100) <=
        (den \div 10) * 10 + Abs(e.tenv - e.t0) * e.plane[i] * 200 )

(* ---- C15 ---- *)
Values(e) ==
  IF ~Fin(e.c) \/ ~Fin(e.work) \/ ~Fin(e.energy) THEN {"finite"} ELSE
  Clause("compliance_is_load_times_displacement", AllNear(e.c, e.work, e.tol))
  \cup Clause("compliance_is_twice_the_energy", Len(e.energy) = 0 \/ AllNear(e.c, e.energy, e.tol))
  \cup Clause("energy_not_negative", e.minenergy >= 0)
Scale(e) == IF ~Fin(e.c) \/ ~Fin(e.cs) THEN {"finite"} ELSE
  Clause("square_of_load_scale", Len(e.c) = Len(e.cs) /\ \A i \in 1..Len(e.c) :
     Abs(100 * e.cs[i] - e.s * e.s * e.c[i]) <= 5000 + e.s * e.s * 10)
Stiffen(e) == IF ~Fin(e.c) \/ ~Fin(e.ca) THEN {"finite"} ELSE
  Clause("inverse_of_stiffness", Len(e.c) = Len(e.ca) /\ \A i \in 1..Len(e.c) :
     Abs(e.a * e.ca[i] - 10 * e.c[i]) <= 20 * (10 + e.a))
Add(e) == IF ~Fin(e.c) \/ ~Fin(e.more) THEN {"finite"} ELSE
  Clause("material_never_hurts", \A i \in 1..Len(e.c) : e.more[i] <= e.c[i] + e.tol)
Grad(e) == IF ~Fin(e.fd) \/ ~Fin(e.an) THEN {"finite"} ELSE
  Clause("sensitivity_is_the_derivative", AllNear(e.fd, e.an, 500))
ObjVal(e) == IF ~Fin(e.want) \/ ~Fin(e.got) THEN {"finite"} ELSE
  Clause("every_case", Len(e.got) = e.cases) \cup Clause("objective_value", AllNear(e.want, e.got, IF e.objective = "averaged_temp" THEN 5 ELSE 5000))   \* another quadrature of |grad rho| is fine
Handed(e) == IF ~Fin(e.want) \/ ~Fin(e.got) \/ ~Fin(e.fd) THEN {"finite"} ELSE
  Clause("chain_rule", AllNear(e.want, e.got, 500))
  \cup Clause("design_derivative", Len(e.fd) = 0 \/ AllNear(e.fd, e.got, 500))
  \cup Clause("objective_is_the_average", Abs(e.obj - e.meanobj) <= 20)

Viol(tr, st, e) ==
  CASE e.op = "solve" -> Solved(e)
    [] e.op = "bar" -> IF tr.prop = "C14" THEN BarElastic(e) ELSE BarCompliance(e)
    [] e.op = "heatbar" -> BarHeat(e)
    [] e.op = "values" -> Values(e)
    [] e.op = "scale" -> Scale(e)
    [] e.op = "stiffen" -> Stiffen(e)
    [] e.op = "add" -> Add(e)
    [] e.op = "grad" -> Grad(e)
    [] e.op = "other" -> {c \o "_of_" \o e.objective : c \in Grad(e)}
    [] e.op = "objval" -> {c \o "_of_" \o e.objective : c \in ObjVal(e)}
    [] e.op = "handed" -> Handed(e)
    [] OTHER -> {"raised"}
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = 0
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = s
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
