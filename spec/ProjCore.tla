------------------------------- MODULE ProjCore -------------------------------
(* Smoothed step with sharpness beta and threshold eta. For beta = m ln(b) / 2 and values that
   are multiples of 1/m, tanh takes the rational values (b^j - 1) / (b^j + 1), so the
   projection is known exactly: it is computed here with scale U = 10^4.                    *)
EXTENDS Integers, Sequences
U == 10000
Big == 100000000
RECURSIVE Pow(_, _)
Pow(b, j) == IF j = 0 THEN 1 ELSE LET q == Pow(b, j - 1) IN IF q >= Big \div b THEN Big ELSE q * b
RECURSIVE Tanh(_, _)
Tanh(b, j) == IF j < 0 THEN -Tanh(b, -j) ELSE U - (4 * U + Pow(b, j) + 1) \div (2 * (Pow(b, j) + 1))
Den(b, m, e) == Tanh(b, e) + Tanh(b, m - e)
Num(b, e, r) == Tanh(b, e) + Tanh(b, r - e)
Proj(b, m, e, r) == (2 * Num(b, e, r) * U + Den(b, m, e)) \div (2 * Den(b, m, e))
===============================================================================
