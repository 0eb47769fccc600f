------------------------------- MODULE HistCore -------------------------------
(* Abstract history recorder. A collection maps a name to
     [kind, ylog, data]   data: sequence of entries, an entry is a sequence of
   integers scaled by 1000: one number for a scalar, min/mean/max[/std] for an array.
   A file maps a name to [kind, data].                                            *)
EXTENDS Integers, Sequences, FiniteSets

Std == "min-max-mean-std"
(* fed values: t how the value is passed, a its elements *)
Vals == << [t |-> "float", a |-> <<5>>], [t |-> "int", a |-> <<-3>>], [t |-> "f32", a |-> <<2>>],
           [t |-> "i64", a |-> <<0>>], [t |-> "zerod", a |-> <<7>>], [t |-> "bool", a |-> <<1>>],
           [t |-> "arr", a |-> <<4, 2>>], [t |-> "arr", a |-> <<5>>], [t |-> "arr", a |-> <<-6, 0>>],
           [t |-> "iarr", a |-> <<1, 7, 4, 4>>], [t |-> "mat", a |-> <<1, 1, 3, 3>>],
           [t |-> "arr", a |-> <<-1, -3, -5, -3>>], [t |-> "big", a |-> <<2000>>] >>
Arrays == {i \in 1..Len(Vals) : Vals[i].t \in {"arr", "iarr", "mat", "big"}}
Scalars == (1..Len(Vals)) \ Arrays

RECURSIVE SumA(_)
SumA(a) == IF a = <<>> THEN 0 ELSE Head(a) + SumA(Tail(a))
MinA(a) == CHOOSE x \in {a[i] : i \in 1..Len(a)} : \A i \in 1..Len(a) : x <= a[i]
MaxA(a) == CHOOSE x \in {a[i] : i \in 1..Len(a)} : \A i \in 1..Len(a) : x >= a[i]
(* variance times n^2; the standard deviation scaled by 1000 is its integer square root *)
VarN(a) == Len(a) * SumA([i \in 1..Len(a) |-> a[i] * a[i]]) - SumA(a) * SumA(a)
Isqrt(v) == CHOOSE k \in 0..4000 : k * k <= v /\ (k + 1) * (k + 1) > v
(* all values of Vals have an integral mean, and a standard deviation known to 1/1000 *)
Mean(a) == (1000 * SumA(a)) \div Len(a)
StdDev(a) == Isqrt((VarN(a) * 1000000) \div (Len(a) * Len(a)))

Entry(kind, v) ==
  IF v.t \in {"arr", "iarr", "mat", "big"}
  THEN <<1000 * MinA(v.a), Mean(v.a), 1000 * MaxA(v.a)>>
       \o (IF kind = Std THEN <<StdDev(v.a)>> ELSE <<>>)
  ELSE <<1000 * v.a[1]>>

Put(c, n, s) == [m \in DOMAIN c \cup {n} |-> IF m = n THEN s ELSE c[m]]
Register(c, n, kind, ylog, data) == Put(c, n, [kind |-> kind, ylog |-> ylog, data |-> data])
Feed(c, n, v) == [c EXCEPT ![n].data = Append(@, Entry(c[n].kind, v))]
Key(f) == IF f = "h" THEN "h.npz" ELSE f       \* the extension is implied
FileOf(c) == [n \in DOMAIN c |-> [kind |-> c[n].kind, data |-> c[n].data]]
Import(c, f) ==
  [n \in DOMAIN c \cup DOMAIN f |->
     IF n \in DOMAIN f
     THEN [kind |-> f[n].kind, data |-> f[n].data, ylog |-> IF n \in DOMAIN c THEN c[n].ylog ELSE FALSE]
     ELSE c[n]]
=============================================================================
