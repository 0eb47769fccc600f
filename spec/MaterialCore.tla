----------------------------- MODULE MaterialCore -----------------------------
(* The material law in exact integer arithmetic.
   Densities are tenths, stiffnesses are scaled by 10^5, Poisson's ratio is one of 0, 1/4, 1/3
   (codes 0, 4, 3), displacement gradients G are integer matrices. Then the stress is
   E * S / 40 with an integer S, and the strain energy per volume E * (S : 2 eps) / 160.    *)
EXTENDS Integers, Sequences
EU == 100000
RECURSIVE Pw(_, _)
Pw(b, n) == IF n = 0 THEN 1 ELSE b * Pw(b, n - 1)
DivRound(a, b) == (2 * a + b) \div (2 * b)

(* interpolated stiffness of density r / 10 between Emin and E0 *)
Stiff(model, r, E0, Emin, p) ==
  Emin * EU + IF model = "simp" THEN (E0 - Emin) * Pw(r, p) * Pw(10, 5 - p)
              ELSE DivRound((E0 - Emin) * EU * r, 10 + p * (10 - r))
(* its derivative, scaled by 10^5 *)
DStiff(model, r, E0, Emin, p) ==
  IF model = "simp" THEN p * (E0 - Emin) * Pw(r, p - 1) * Pw(10, 6 - p)
  ELSE LET d == 10 + p * (10 - r) IN DivRound(100 * (E0 - Emin) * (1 + p) * EU, d * d)

I3 == 1..3
Tr(G) == G[1][1] + G[2][2] + G[3][3]
Sym2(G) == [i \in I3 |-> [j \in I3 |-> G[i][j] + G[j][i]]]       \* twice the strain
LameA(nu) == CASE nu = 0 -> 20 [] nu = 4 -> 16 [] OTHER -> 15
LameB(nu) == CASE nu = 0 -> 0 [] nu = 4 -> 8 [] OTHER -> 15
Stress(G, nu) == [i \in I3 |-> [j \in I3 |->
   LameA(nu) * (G[i][j] + G[j][i]) + IF i = j THEN 2 * LameB(nu) * Tr(G) ELSE 0]]
DD(A, B) == LET row(i) == A[i][1] * B[i][1] + A[i][2] * B[i][2] + A[i][3] * B[i][3] IN
            row(1) + row(2) + row(3)
Work(G, H, nu) == DD(Stress(G, nu), Sym2(H))     \* G : C : H, times 80 / E
Sq(x) == x * x
(* square of the von Mises stress of an integer tensor, times two *)
Mises2(S) == Sq(S[1][1] - S[2][2]) + Sq(S[2][2] - S[3][3]) + Sq(S[3][3] - S[1][1])
             + 6 * (Sq(S[1][2]) + Sq(S[2][3]) + Sq(S[3][1]))
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1])
                 + a[3] * (b[1] * c[2] - b[2] * c[1])
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
AbsI(x) == IF x < 0 THEN -x ELSE x
(* volume of an element, times 6 for a tetrahedron: q are the corners; a parallelepiped lists
   the three neighbours of its first corner next                                          *)
Vol(q) == AbsI(Det3(Sub3(q[2], q[1]), Sub3(q[3], q[1]), Sub3(q[4], q[1])))
VDen(kind) == IF kind = "tet" THEN 6 ELSE 1
===============================================================================
