------------------------------ MODULE SolveCore ------------------------------
(* Selecting a backend, and what a state solve may end in; and the exactly solvable bar:
   unit cubes in a row, clamped (or held at a temperature) at one end.                    *)
EXTENDS Integers, Sequences, FiniteSets

Direct == {"auto", "spsolve"}
Iterative == {"cg_jacobi", "cg_pyamg"}
External == {"petsc", "petsc_spdirect"}
(* outcomes a request may have; fault: the iterative solver fails or does not converge *)
Allowed(phys, backend, installed, fault, n) ==
  CASE backend \in Direct -> {"solved"}
    [] backend \in Iterative ->
         IF fault THEN {"error"} ELSE IF phys = "heat" \/ n > 1 THEN {"error", "solved"} ELSE {"solved"}
    [] backend \in External -> IF ~installed \/ fault THEN {"error"}
         ELSE IF phys = "heat" /\ backend = "petsc" THEN {"error", "solved"} ELSE {"solved"}   \* the system with
                                                \* prescribed temperatures is not symmetric: CG may not converge
    [] OTHER -> {"error"}
(* PETSc: solver and preconditioner in effect for the options given (opts names a set of options);
   a direct solve refuses another preconditioner                                              *)
KspOf(backend, opts) == IF backend = "petsc_spdirect" \/ opts = "lu" THEN "preonly" ELSE "cg"
PcOf(backend, opts) == IF backend = "petsc_spdirect" \/ opts = "lu" THEN "lu"
                       ELSE IF opts = "hypre" THEN "hypre" ELSE "gamg"
Contradicts(backend, opts) == backend = "petsc_spdirect" /\ opts = "hypre"
(* kinds of solver a successful explicit request may have used *)
MayUse(backend) == IF backend = "auto" THEN {"direct", "iterative"}
                   ELSE IF backend = "spsolve" THEN {"direct"}
                   ELSE IF backend \in Iterative THEN {"iterative"} ELSE {"external"}

(* ---- bar ---- *)
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
(* stiffness scaled by 10^6 for a density in tenths, E0 = 1, Emin = 1/1000, exponent 1..3 *)
Stiff(law, r, p) == IF law = "SIMP" THEN 1000 + 999 * Pw(r, p) * Pw(10, 3 - p)
                    ELSE 1000 + (999000 * r) \div (10 + p * (10 - r))
(* 1/stiffness scaled by 10^5 *)
Flex(law, r, p) == LET e == Stiff(law, r, p)  q == 1000000000 \div e  m == 1000000000 % e IN
                   q * 100 + (m * 100) \div e
RECURSIVE BarU(_, _, _, _)
BarU(law, rho, p, i) == IF i = 0 THEN 0 ELSE Flex(law, rho[i], p) + BarU(law, rho, p, i - 1)
===============================================================================
