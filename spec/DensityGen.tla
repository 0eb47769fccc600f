------------------------------ MODULE DensityGen ------------------------------
(* Problem and configuration generator: every behaviour picks one value per dimension,
   then a way to split the run into requests, restarts included.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dims, Ms, MaxReq
VARIABLES c, d, M, ops, left, ends   \* ends: iterations at which a request ended
Init == c = <<>> /\ d = 1 /\ M = 0 /\ ops = <<>> /\ left = 0 /\ ends = {}
Pick == /\ d <= Len(Dims)
        /\ \E v \in Dims[d][2] : c' = Append(c, [k |-> Dims[d][1], v |-> v])
        /\ d' = d + 1 /\ UNCHANGED <<M, ops, left, ends>>
Size == /\ d = Len(Dims) + 1 /\ M = 0
        /\ \E m \in Ms : M' = m /\ left' = m
        /\ UNCHANGED <<c, d, ops, ends>>
LastOp == IF ops = <<>> THEN "" ELSE ops[Len(ops)].op
Req == /\ M > 0 /\ left > 0
       /\ \E n \in 1..left : /\ (Len(ops) + 1 >= MaxReq => n = left)
                             /\ ops' = Append(ops, [op |-> "steps", n |-> n, M |-> M]) /\ left' = left - n
                             /\ ends' = ends \cup {M - left + n}
       /\ UNCHANGED <<c, d, M>>
(* automatic (n = 0), or from the checkpoint of the n-th iteration; possibly for more iterations *)
Restart == /\ M > 0 /\ left > 0 /\ left < M /\ LastOp = "steps" /\ Len(ops) < MaxReq - 1
           /\ ~\E i \in 1..Len(ops) : ops[i].op = "restart"
           /\ \E n \in {0} \cup ends, m \in {M, M + 2} :
                /\ ops' = Append(ops, [op |-> "restart", n |-> n, M |-> m])
                /\ M' = m /\ left' = m - (IF n = 0 THEN M - left ELSE n)
           /\ UNCHANGED <<c, d, ends>>
Next == Pick \/ Size \/ Req \/ Restart
Emit == (M > 0 /\ left = 0) => PrintT("SCN " \o ToJson([c |-> c, M |-> M, ops |-> ops]))
=============================================================================
