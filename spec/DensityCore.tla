----------------------------- MODULE DensityCore -----------------------------
(* One iteration of the density method: which densities may change and how far,
   what the volume control has to achieve, how the log-space multiplier moves.
   Densities, volumes and multipliers are integers of a common scale.          *)
EXTENDS Integers, Sequences, FiniteSets

Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b
Clip(x, lo, hi) == Mn(Mx(x, lo), hi)
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumSet(f, S \ {e})

(* interval a density may occupy after one update *)
Lower(r, move, lo) == Mx(r - move, lo)
Upper(r, move, hi) == Mn(r + move, hi)

(* roles: conn[e] is the set of nodes of element e *)
Touching(conn, nodes) == {e \in DOMAIN conn : conn[e] \cap nodes # {}}
Solid(conn, request, loaded, supported, conv, dd, dconv) ==
  LET design == (request \ Touching(conn, loaded)) \ (IF dconv THEN {} ELSE Touching(conn, conv))
  IN (DOMAIN conn \ design) \cup Touching(conn, loaded)
     \cup (IF dd THEN {} ELSE Touching(conn, supported))

(* dual update of the log-space rule; coefficients in tenths / hundredths *)
Dual(rule, first, prev, err, mu10, decay100) ==
  LET pen == (mu10 * err) \div 10 IN
  IF first THEN pen
  ELSE IF rule = "augmented" THEN prev + pen
  ELSE (decay100 * prev + (100 - decay100) * pen) \div 100
=============================================================================
