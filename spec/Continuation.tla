---------------------------- MODULE Continuation ----------------------------
(* Design model of a continuation schedule over one run, and generator of the
   schedules the implementation is asked to evaluate.                         *)
EXTENDS ContCore, TLC, Json
CONSTANTS Ns, Ts, Cs, Pairs, Routes, Kinds, SetMinC, OnePair
VARIABLES s, it, v, len, seen

vars == <<s, it, v, len, seen>>
Unit == 10
Scheds == {[typ |-> t, init |-> p[1], target |-> p[2], n |-> n, T |-> T, c |-> c] :
             t \in Kinds, p \in Pairs, n \in Ns, T \in Ts, c \in Cs}
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Start(x) == IF x.typ \in ToOne THEN <<Unit, x.n>> ELSE <<x.init, 1>>
Up(x) == Le(Start(x), Target(x, Unit))

Sensible(x) == /\ x.typ \in ToOne => x.n > 0
               /\ x.typ \notin Accel \cup Decel => x.c = SetMinC
               /\ x.typ \in Consts => x.n = 0
               /\ x.typ \in ToOne \cup {"ConstantOne"} => <<x.init, x.target>> = OnePair

Init == /\ s \in {x \in Scheds : Sensible(x)}
        /\ it = 1 /\ v = ValueAt(s, Unit, 1) /\ len = 1 /\ seen = {v}
Next == /\ it < s.T + 1
        /\ it' = it + 1 /\ v' = ValueAt(s, Unit, it') /\ UNCHANGED s
        /\ len' = IF Eq(v, v') THEN len + 1 ELSE 1
        /\ seen' = IF \E w \in seen : Eq(w, v') THEN seen ELSE seen \cup {v'}
Spec == Init /\ [][Next]_vars

InRange == IF Up(s) THEN Le(Start(s), v) /\ Le(v, Target(s, Unit))
                    ELSE Le(Target(s, Unit), v) /\ Le(v, Start(s))
EndsAtTarget == it >= s.T => Eq(v, Target(s, Unit))
StartsAtInit == s.typ \in Steps /\ it = 1 /\ s.n > 1 /\ s.n < s.T => Eq(v, Start(s))
ConstIsTarget == s.typ \in Consts \/ s.n <= 0 => Eq(v, Target(s, Unit))
(* exactly n plateaus when there is room for them *)
Plateaus == s.typ \in Steps /\ it = s.T /\ s.n >= 1 /\ s.n < s.T /\ ~Eq(Start(s), Target(s, Unit))
              => Cardinality(seen) = s.n
(* a plateau never lasts longer than its fair share plus one *)
Fair == s.typ \in Steps /\ it <= s.T /\ s.n >= 1 /\ ~Eq(Start(s), Target(s, Unit))
              => len * s.n <= s.T + s.n
Shaped == s.typ \in Accel \cup Decel /\ ~AtEnd(s, it) =>
            LET lin == Blend(s, Unit, Progress("Step", Idx(it, s.n, s.T), s.n, 1)) IN
            IF (s.typ \in Accel) = Up(s) THEN Le(v, lin) ELSE Le(lin, v)
Monotone == [][s.typ \in Steps => IF Up(s) THEN Le(v, v') ELSE Le(v', v)]_vars
(* a plateau that is left lasted at least its fair share minus one *)
FairBelow == [][s.typ \in Steps /\ s.n >= 1 /\ it < s.T /\ ~Eq(v, v') => len * s.n >= s.T - s.n]_vars
(* within a cycle a saw-tooth moves by a constant amount per iteration, and a new cycle
   restarts at most one step away from the initial value *)
Saw == [][s.typ = "SawtoothDecay" /\ s.n > 0 /\ s.n < s.T /\ it' < s.T =>
          LET a == ((it - 1) * s.n) % s.T  b == (it * s.n) % s.T IN
          IF b > a THEN b = a + s.n ELSE b < s.n]_vars

(* ---- generation ---- *)
GInit == /\ s \in {x \in Scheds : Sensible(x)} /\ it \in Routes /\ v = 0 /\ len = 0 /\ seen = {}
GNext == FALSE /\ UNCHANGED vars
Emit == PrintT("SCN " \o ToJson([kind |-> "values", s |-> s, route |-> it]))
RInit == /\ s \in [typ : Types \cup {"Linear"}, g : SUBSET {"init", "target", "n", "c"},
                   n : {-2, 0, 1, 4}, one : BOOLEAN]
         /\ ("n" \notin s.g => s.n = 4) /\ ("target" \notin s.g => s.one)
         /\ it = 0 /\ v = 0 /\ len = 0 /\ seen = {}
REmit == PrintT("SCN " \o ToJson([kind |-> "valid", s |-> s, route |-> "config"]))
=============================================================================
