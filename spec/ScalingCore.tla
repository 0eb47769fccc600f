------------------------------ MODULE ScalingCore ------------------------------
(* Length and load normalisation. A quantity is known by its exponents: a run that is
   normalised by lengths 1/L and loads 1/F multiplies it by L^-l * F^-f.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Length == [l |-> 1, f |-> 0]
Load == [l |-> 0, f |-> 1]
Mul(a, b) == [l |-> a.l + b.l, f |-> a.f + b.f]
Div(a, b) == [l |-> a.l - b.l, f |-> a.f - b.f]
One == [l |-> 0, f |-> 0]
Volume == Mul(Length, Mul(Length, Length))
Stiffness == Length                      \* modulus * length in three dimensions
Displacement == Div(Load, Stiffness)
Compliance == Mul(Load, Displacement)
Energy == Compliance
Radius == Length
Density == One                           \* no scaled quantity enters the design
(* what a factor of lengths x and loads y (exponents) makes of a quantity *)
Apply(q, x, y) == q.l * x + q.f * y
===============================================================================
