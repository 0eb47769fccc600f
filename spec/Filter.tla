-------------------------------- MODULE Filter --------------------------------
(* Design of a density filter object: the averaging matrix belongs to the radius, may be kept
   between calls, and is rebuilt when the radius changes. Any kernel that falls with the
   distance, on a path of elements with any passive set.                                   *)
EXTENDS FilterCore, TLC
CONSTANTS N, Kernels, Radii, Values, MaxLen
(* a kernel: radius -> distance -> weight *)
VARIABLES kern, D, r, cache, hist, last
vars == <<kern, D, r, cache, hist, last>>
Ctr == [i \in 1..N |-> <<i, 0, 0>>]
Wt(k, rad, d) == IF d >= rad THEN 0 ELSE kern[rad][d + 1]
KernelOk(k) == \A rad \in Radii : \A d \in 0..(N - 1) :
   /\ k[rad][d + 1] > 0 /\ d > 0 => k[rad][d + 1] <= k[rad][d]
(* unnormalised rows; Row(rad, i) sums to Sum(rad, i) *)
Raw(rad) == [j \in 1..N |-> [i \in 1..N |-> IF i \in D /\ j \in D THEN Wt(kern, rad, Ab(i - j)) ELSE 0]]
RowSum(rad, i) == RowDot(Raw(rad), i, Ones(N), N)
Init == /\ kern \in [Radii -> Kernels] /\ KernelOk(kern) /\ D \in (SUBSET (1..N)) \ {{}}
        /\ r \in Radii /\ cache = 0 /\ hist = <<>> /\ last = 0
Forward == /\ Len(hist) < MaxLen /\ cache' = r /\ last' = r /\ hist' = Append(hist, "f") /\ UNCHANGED <<kern, D, r>>
Gradient == /\ Len(hist) < MaxLen /\ cache' = (IF cache = 0 THEN r ELSE cache) /\ last' = cache'
            /\ hist' = Append(hist, "g") /\ UNCHANGED <<kern, D, r>>
Update == /\ Len(hist) < MaxLen /\ \E q \in Radii : r' = q
          /\ cache' = 0 /\ last' = 0 /\ hist' = Append(hist, "u") /\ UNCHANGED <<kern, D>>
Next == Forward \/ Gradient \/ Update
Spec == Init /\ [][Next]_vars

NoStaleRadius == last # 0 => last = r
(* consequences of the averaging form, for every input *)
Inputs == [1..N -> Values]
Out(rad, x, i) == RowDot(Raw(rad), i, x, N)            \* times RowSum
Range == last # 0 => \A x \in Inputs : \A i \in D :
   LET lo == CHOOSE v \in Values : (\E j \in D : x[j] = v) /\ \A j \in D : x[j] >= v
       hi == CHOOSE v \in Values : (\E j \in D : x[j] = v) /\ \A j \in D : x[j] <= v IN
   /\ lo * RowSum(last, i) <= Out(last, x, i) /\ Out(last, x, i) <= hi * RowSum(last, i)
Constant == last # 0 => \A i \in D : RowSum(last, i) > 0
PassiveIgnored == last # 0 => \A x \in Inputs : \A i \in D : Out(last, x, i) = Out(last, OnDesign(x, D, 0), i)
LocalAndFalling == last # 0 => NoLeak(Raw(last), D) /\ Local(Raw(last), D, Ctr, last)
                               /\ FallsWithDistance(Raw(last), D, Ctr, 0)
(* the chain law: a constant is its own filtered value, at every radius *)
ChainConstant == \A v \in Values : \A k \in Radii :
   ChainOk([i \in 1..N |-> v * 96], [i \in 1..N |-> v * 96], k, 0, 96)
===============================================================================
