------------------------------ MODULE ContCore ------------------------------
(* Continuation schedules of sktopt.tools.scheduler.  A schedule is a record
     [typ, init, target, n, T, c]   n: step count (0 = not given), T: iterations,
   c: curvature in tenths.  Values are exact rationals <<num, den>>; init and
   target are integers (in whatever unit the caller chose).                    *)
EXTENDS Integers, Sequences, FiniteSets

Linear == {"Step", "StepToOne"}
Accel  == {"StepAccelerating", "StepAcceleratingToOne"}
Decel  == {"StepDecelerating", "StepDeceleratingToOne"}
ToOne  == {"StepToOne", "StepAcceleratingToOne", "StepDeceleratingToOne"}
Steps  == Linear \cup Accel \cup Decel
Consts == {"Constant", "ConstantOne"}
Types  == Steps \cup Consts \cup {"SawtoothDecay", "None"}

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Lesser(a, b) == IF a <= b THEN a ELSE b

(* plateau an iteration belongs to *)
Idx(it, n, T) == Lesser((it * n) \div T, n - 1)
(* float rounding may delay a plateau that begins exactly at an iteration *)
Idxs(it, n, T) == IF (it * n) % T = 0 /\ Idx(it, n, T) > 0
                  THEN {Idx(it, n, T), Idx(it, n, T) - 1} ELSE {Idx(it, n, T)}

(* progress of plateau k of n for an integer curvature c: <<num, den>> in [0,1] *)
Progress(typ, k, n, c) ==
  IF n <= 1 THEN <<1, 1>>
  ELSE IF typ \in Linear THEN <<k, n - 1>>
  ELSE IF typ \in Accel THEN <<Pow(k, c), Pow(n - 1, c)>>
  ELSE <<Pow(n - 1, c) - Pow(n - 1 - k, c), Pow(n - 1, c)>>

(* the to-one variants start at 1/n: values in units of 1/n of the unit *)
Blend(s, unit, p) ==
  IF s.typ \in ToOne
  THEN <<unit * (p[2] - p[1]) + unit * s.n * p[1], s.n * p[2]>>
  ELSE <<s.init * (p[2] - p[1]) + s.target * p[1], p[2]>>

Target(s, unit) == IF s.typ \in ToOne \cup {"ConstantOne"} THEN <<unit, 1>> ELSE <<s.target, 1>>

AtEnd(s, it) == s.typ \in Consts \/ s.n <= 0 \/ it >= s.T

SawProgress(it, n, T) == <<((it - 1) * n) % T, T>>

(* value of schedule s at iteration it; integer curvature; unit = encoding of 1.0 *)
ValueAt(s, unit, it) ==
  IF AtEnd(s, it) THEN Target(s, unit)
  ELSE IF s.typ = "SawtoothDecay" THEN Blend(s, unit, SawProgress(it, s.n, s.T))
  ELSE Blend(s, unit, Progress(s.typ, Idx(it, s.n, s.T), s.n, s.c \div 10))

(* which combinations of given parameters are a specification at all;
   g: set of given parameters, n: step count if given, one: target is 1 *)
Valid(typ, g, n, one) ==
  CASE typ = "Constant" -> "target" \in g
    [] typ \in {"ConstantOne", "None"} -> TRUE
    [] typ \in {"Step", "SawtoothDecay"} -> {"init", "target", "n"} \subseteq g
    [] typ \in {"StepAccelerating", "StepDecelerating"} -> {"init", "target", "n", "c"} \subseteq g
    [] typ = "StepToOne" -> "n" \in g /\ n > 0 /\ ("target" \in g => one)
    [] typ \in {"StepAcceleratingToOne", "StepDeceleratingToOne"} ->
         {"n", "c"} \subseteq g /\ n > 0 /\ ("target" \in g => one)
    [] OTHER -> FALSE
=============================================================================
