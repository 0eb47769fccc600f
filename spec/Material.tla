------------------------------- MODULE Material -------------------------------
(* Design check of the material law: a displacement gradient is strained entry by entry. *)
EXTENDS MaterialCore, TLC
CONSTANTS Vals, MaxR
VARIABLES G, k, nu, r, p, model
vars == <<G, k, nu, r, p, model>>
Zero == [i \in I3 |-> [j \in I3 |-> 0]]
Init == /\ G = Zero /\ k = 0 /\ nu \in {0, 3, 4}
        /\ r = 0 /\ p \in 1..3 /\ model \in {"simp", "ramp"}
Strain == /\ k < 9 /\ r = 0 /\ k' = k + 1
          /\ \E v \in Vals : G' = [G EXCEPT ![(k \div 3) + 1][(k % 3) + 1] = v]
          /\ UNCHANGED <<nu, r, p, model>>
Densify == /\ k = 9 /\ DD(G, G) <= 1 /\ r < MaxR /\ r' = r + 1 /\ UNCHANGED <<G, k, nu, p, model>>
Next == Strain \/ Densify
Spec == Init /\ [][Next]_vars
Skew == \A i, j \in I3 : G[i][j] = -G[j][i]
Transp(M) == [i \in I3 |-> [j \in I3 |-> M[j][i]]]
Perm(M) == [i \in I3 |-> [j \in I3 |-> M[(i % 3) + 1][(j % 3) + 1]]]
W == Work(G, G, nu)
SymmetricStress == LET S == Stress(G, nu) IN \A i, j \in I3 : S[i][j] = S[j][i]
EnergyPositive == W >= 0 /\ (W = 0 <=> Skew)
RotationFree == Work(Transp(G), Transp(G), nu) = W
Isotropic == Work(Perm(G), Perm(G), nu) = W
Reciprocal == LET H == [Zero EXCEPT ![1][2] = 1, ![3][3] = 2] IN Work(G, H, nu) = Work(H, G, nu)
HydrostaticShift == LET S == Stress(G, nu)
                        T == [S EXCEPT ![1][1] = @ + 7, ![2][2] = @ + 7, ![3][3] = @ + 7] IN
                    Mises2(S) = Mises2(T)
Ends == Stiff(model, 0, 9, 1, p) = EU /\ Stiff(model, 10, 9, 1, p) = 9 * EU
Between == Stiff(model, r, 9, 1, p) >= EU /\ Stiff(model, r, 9, 1, p) <= 9 * EU
Slope == r < 10 => LET d == Stiff(model, r + 1, 9, 1, p) - Stiff(model, r, 9, 1, p) IN
   /\ 10 * d >= DStiff(model, r, 9, 1, p) - 20        \* both laws are convex
   /\ 10 * d <= DStiff(model, r + 1, 9, 1, p) + 20
Penalises == Stiff(model, r, 9, 1, p) <= EU + 8 * r * (EU \div 10)
Increasing == [][Stiff(model, r', 9, 1, p) >= Stiff(model, r, 9, 1, p)]_vars
===============================================================================
