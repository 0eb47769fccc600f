-------------------------------- MODULE Scaling --------------------------------
(* Design: a task (geometry and load cases, by the exponents of the factors applied so far),
   optimizers that normalise it when they are built and restore it when their run is complete,
   whichever way it completes, and runs repeated on the same task.                        *)
EXTENDS ScalingCore
CONSTANTS NCases, MaxIters, MaxOpt
VARIABLES geo, loads, opt, built
vars == <<geo, loads, opt, built>>
None == [on |-> FALSE, norm |-> FALSE, iter |-> 0, complete |-> TRUE]
Init == geo = 0 /\ loads = [c \in 1..NCases |-> 0] /\ opt = None /\ built = 0
Factor(x, y) == geo' = geo + x /\ loads' = [c \in 1..NCases |-> loads[c] + y]
Build(n) == /\ opt.complete /\ built < MaxOpt /\ built' = built + 1
            /\ opt' = [on |-> TRUE, norm |-> n, iter |-> 0, complete |-> FALSE]
            /\ IF n THEN Factor(-1, -1) ELSE UNCHANGED <<geo, loads>>
(* a request executes k iterations; stop: converged *)
Run(k, stop) ==
  /\ opt.on
  /\ IF opt.complete THEN UNCHANGED vars
     ELSE LET i == IF opt.iter + k > MaxIters THEN MaxIters ELSE opt.iter + k
              c == stop \/ i = MaxIters IN
          /\ opt' = [opt EXCEPT !.iter = i, !.complete = c]
          /\ IF c /\ opt.norm THEN Factor(1, 1) ELSE UNCHANGED <<geo, loads>>
          /\ UNCHANGED built
Next == (\E n \in BOOLEAN : Build(n)) \/ (\E k \in 1..MaxIters : \E s \in BOOLEAN : Run(k, s))
Spec == Init /\ [][Next]_vars
Active == opt.on /\ opt.norm /\ ~opt.complete
Restored == ~Active => geo = 0 /\ \A c \in 1..NCases : loads[c] = 0
Normalised == Active => geo = -1 /\ \A c \in 1..NCases : loads[c] = -1
(* the analysed structure is the same: quantities derived from the factored geometry and loads
   carry the factors of their dimension, for every load case                              *)
Equivalent == \A c \in 1..NCases :
   LET k == geo  u == loads[c] - k  w == loads[c] + u IN
     /\ u = Apply(Displacement, geo, loads[c]) /\ w = Apply(Compliance, geo, loads[c])
     /\ 3 * geo = Apply(Volume, geo, loads[c]) /\ Apply(Density, geo, loads[c]) = 0
===============================================================================
