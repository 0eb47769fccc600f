--------------------------------- MODULE Proj ---------------------------------
(* Design check of the projection on its exact rational points. *)
EXTENDS ProjCore, TLC
CONSTANTS Bases, M
VARIABLES b, m, e, r
vars == <<b, m, e, r>>
Init == b \in Bases /\ m \in 2..M /\ e \in 1..(m - 1) /\ r = 0
Next == r < m /\ r' = r + 1 /\ UNCHANGED <<b, m, e>>
Spec == Init /\ [][Next]_vars
P(q) == Proj(b, m, e, q)
InRange == P(r) >= 0 /\ P(r) <= U
Ends == P(0) = 0 /\ P(m) = U
Monotone == [][P(r') >= P(r)]_vars
Symmetric == LET a == P(r) + Proj(b, m, m - e, m - r) IN a >= U - 1 /\ a <= U + 1
(* sharper pushes apart: where the threshold is one half, away from it *)
Sharper == \A c \in Bases : c >= b /\ 2 * e = m =>
   IF 2 * r <= m THEN Proj(c, m, e, r) <= P(r) + 1 ELSE Proj(c, m, e, r) >= P(r) - 1
===============================================================================
