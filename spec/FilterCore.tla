------------------------------ MODULE FilterCore ------------------------------
(* A density filter at a given radius is an affine map of the element values: y = base + M x
   on the design elements. Matrices are sequences of columns: M[j][i] is the response of
   element i to a unit value of element j. Everything is an integer; see the users for scales. *)
EXTENDS Integers, Sequences, FiniteSets

Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RowDot(_, _, _, _)
RowDot(M, i, x, j) == IF j = 0 THEN 0 ELSE M[j][i] * x[j] + RowDot(M, i, x, j - 1)
RECURSIVE ColDot(_, _, _, _)
ColDot(M, j, v, i) == IF i = 0 THEN 0 ELSE M[j][i] * v[i] + ColDot(M, j, v, i - 1)
Ones(n) == [i \in 1..n |-> 1]
OnDesign(x, D, other) == [i \in 1..Len(x) |-> IF i \in D THEN x[i] ELSE other]

(* averaging: rows of weights, one = the integer standing for 1 *)
Averages(M, D, one, tol) ==
  \A i \in D : /\ Ab(RowDot(M, i, OnDesign(Ones(Len(M)), D, 0), Len(M)) - one) <= tol
               /\ \A j \in D : M[j][i] >= 0
NoLeak(M, D) == \A j \in 1..Len(M) \ D : \A i \in D : M[j][i] = 0
(* exactly the design elements within the radius; at the radius itself either is fine *)
Local(M, D, ctr, r) ==
  \A i \in D : \A j \in D : LET d == Dist2(ctr[i], ctr[j]) IN
    /\ d > r * r => M[j][i] = 0
    /\ d < r * r => M[j][i] > 0
FallsWithDistance(M, D, ctr, tol) ==
  \A i \in D : \A j \in D : \A k \in D :
    Dist2(ctr[i], ctr[j]) <= Dist2(ctr[i], ctr[k]) => M[j][i] >= M[k][i] - tol
Conserves(M, vol, one, tol) == \A j \in 1..Len(M) : Ab(ColDot(M, j, vol, Len(M)) - vol[j] * one) <= tol

(* One dimensional chain of n equal elements of length 1, radius k/4: nodal values u with
   u - r^2 u'' = rho, linear elements, outputs o[i] = (u[i] + u[i+1]) / 2, times 96.        *)
NodeRho2(x, i) == IF i = 1 THEN 2 * x[1] ELSE IF i = Len(x) + 1 THEN 2 * x[Len(x)] ELSE x[i - 1] + x[i]
RECURSIVE Propagate(_, _, _)
Propagate(u, o, i) == IF i > Len(o) THEN u ELSE Propagate(Append(u, 2 * o[i] - u[Len(u)]), o, i + 1)
(* residual at node i (1..n+1) of the nodal values u, for input x; 2 x rho is passed *)
Residual(u, x, k, i) ==
  LET n == Len(x)  R(j) == NodeRho2(x, j) IN
  IF i = 1 THEN 16 * (2 * u[1] + u[2]) + 6 * k * k * (u[1] - u[2]) - 8 * (2 * R(1) + R(2))
  ELSE IF i = n + 1 THEN 16 * (2 * u[n + 1] + u[n]) + 6 * k * k * (u[n + 1] - u[n]) - 8 * (2 * R(n + 1) + R(n))
  ELSE 16 * (u[i - 1] + 4 * u[i] + u[i + 1]) + 6 * k * k * (2 * u[i] - u[i - 1] - u[i + 1])
       - 8 * (R(i - 1) + 4 * R(i) + R(i + 1))
(* m leading passive elements are held at one *)
FirstNode(x, o, k) ==
  (8 * (2 * NodeRho2(x, 1) + NodeRho2(x, 2)) - 32 * o[1] + 12 * k * k * o[1]) \div (16 + 12 * k * k)
ChainOk(x, o, k, m, one) ==
  LET n == Len(x)
      u == IF m = 0 THEN Propagate(<<FirstNode(x, o, k)>>, o, 1)
           ELSE Propagate([i \in 1..(m + 1) |-> one], o, m + 1)
      tol == (96 + 24 * k * k) * (n + 1)
  IN \A i \in (IF m = 0 THEN 1 ELSE m + 2)..(n + 1) : Ab(Residual(u, x, k, i)) <= tol
===============================================================================
