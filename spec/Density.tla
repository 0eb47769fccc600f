------------------------------- MODULE Density -------------------------------
(* Design model of both update rules on a handful of elements. The physical density is
   the design density (filter and projection are specified in Filter and Projection).
   The optimality-criteria rule picks its multiplier by bisection over 1..L.         *)
EXTENDS DensityCore, TLC
CONSTANTS Elems, Passive, Sens, Moves, Targets, L, Depth, Lo, Hi, Q, Mu10, Decay100, DualLo, DualHi
VARIABLES r, rule, it, last, lam, scale
vars == <<r, rule, it, last, lam, scale>>
Design == Elems \ Passive
SetMaxAbs(S) == LET A == {IF x < 0 THEN -x ELSE x : x \in S} IN CHOOSE x \in A : \A y \in A : y <= x
Vol(x) == SumSet(x, Design)

(* multiplicative step with factor in [3/4, 5/4], rounded to the grid *)
Cand(x, s, m, l) ==
  [e \in Elems |-> IF e \in Passive THEN Q ELSE
     LET f == Clip((4 * s[e]) \div l, 3, 5) IN
     Clip((x[e] * f) \div 4, Lower(x[e], m, Lo), Upper(x[e], m, Hi))]

RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(x, s, m, t, a, b) ==
  IF b - a <= 1 THEN b ELSE
  LET c == (a + b) \div 2 IN
  IF Vol(Cand(x, s, m, c)) > t THEN Bisect(x, s, m, t, c, b) ELSE Bisect(x, s, m, t, a, c)

Init == /\ r \in {[e \in Elems |-> IF e \in Passive THEN Q ELSE v] : v \in Lo..Hi}
        /\ rule \in {"oc", "ema", "augmented"} /\ it = 0 /\ lam = 0 /\ scale = 0
        /\ last = [prev |-> r, move |-> 0, target |-> Vol(r), err |-> 0, sat |-> TRUE, sens |-> [e \in Elems |-> 1], mult |-> 1]
OC == /\ rule = "oc"
      /\ \E s \in [Design -> Sens], m \in Moves, t \in Targets :
           LET l == Bisect(r, s, m, t, 0, L + 1)
               n == Cand(r, s, m, l)
               lower == \A e \in Design : n[e] = (r[e] * 3) \div 4 \/ n[e] = Lower(r[e], m, Lo)
           IN /\ r' = n /\ UNCHANGED <<lam, scale>>
              /\ last' = [prev |-> r, move |-> m, target |-> t, err |-> Vol(n) - t, sat |-> lower,
                          sens |-> [e \in Elems |-> IF e \in Passive THEN 0 ELSE s[e]], mult |-> l]
(* log-space rule: the sensitivities stand for the derivative of the Lagrangian, shifted to both signs;
   the step is the clipped derivative over the running scale, upward moves limited as any other,
   downward ones to r^2 / (r + m) *)
Deriv(s) == s - 4
Down(x, m) == Mx((x * x + x + m - 1) \div (x + m), Lo)
LogMOC == /\ rule # "oc"
          /\ \E s \in [Design -> Sens], m \in Moves, t \in Targets :
               LET pct == SetMaxAbs({Deriv(s[e]) : e \in Design})
                   sc == IF it = 0 THEN Mx(pct, 1) ELSE Mx((2 * scale + 8 * pct + 5) \div 10, 1)
                   n == [e \in Elems |-> IF e \in Passive THEN Q ELSE
                           Clip(r[e] - Clip((4 * Deriv(s[e])) \div sc, -3, 3), Down(r[e], m), Upper(r[e], m, Hi))]
               IN /\ r' = n /\ scale' = sc
                  /\ lam' = Clip(Dual(rule, it = 0, lam, Vol(r) - t, Mu10, Decay100), DualLo, DualHi)
                  /\ last' = [last EXCEPT !.prev = r, !.move = m, !.target = t, !.err = Vol(r) - t,
                                !.sens = [e \in Elems |-> IF e \in Passive THEN 0 ELSE s[e]], !.mult = pct]
Next == it < Depth /\ it' = it + 1 /\ UNCHANGED rule /\ (OC \/ LogMOC)
Spec == Init /\ [][Next]_vars

Bounds == \A e \in Design : r[e] \in Lo..Hi
SolidStays == \A e \in Passive : r[e] = Q
MoveLimit == \A e \in Design : r[e] - last.prev[e] \in (-last.move)..last.move
FactorLimit == rule = "oc" /\ it > 0 => \A e \in Design :
                 4 * r[e] <= 5 * last.prev[e] /\ 4 * r[e] >= 3 * last.prev[e] - 3
DualBounds == it > 0 => lam \in DualLo..DualHi \/ rule = "oc"
(* the bisection never overshoots unless every element is at its lower limit *)
NeverAbove == rule = "oc" /\ it > 0 /\ last.err > 0 => last.sat
ChangesOnlyDesign == [][\A e \in Passive : r'[e] = r[e]]_vars
(* one multiplier for all: at one density the larger sensitivity never ends lower, and an element
   without any benefit shrinks as far as it may *)
OneLaw == rule = "oc" /\ it > 0 => \A e, f \in Design :
  /\ last.prev[e] = last.prev[f] /\ last.sens[e] >= last.sens[f] => r[e] >= r[f]
  /\ last.sens[e] = 0 => r[e] = Clip((3 * last.prev[e]) \div 4, Lower(last.prev[e], last.move, Lo), Hi)
(* the log-space rule descends: against the sign of the derivative, and never below r^2 / (r + m) *)
Descent == rule # "oc" /\ it > 0 => \A e \in Design :
  /\ Deriv(last.sens[e]) >= 0 => r[e] <= last.prev[e]
  /\ Deriv(last.sens[e]) <= 0 => r[e] >= last.prev[e]
  /\ r[e] * (last.prev[e] + last.move) >= last.prev[e] * last.prev[e]
(* the running scale stays between the last scale and the current magnitude *)
ScaleFollows == [][rule # "oc" /\ it > 0 => scale' \in (Mn(scale, last'.mult) - 1)..(Mx(scale, last'.mult) + 1)]_vars
=============================================================================
