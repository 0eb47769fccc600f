-------------------------------- MODULE PickGen --------------------------------
(* Scenario generator: one value per dimension, then up to MaxOps operations in any order. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dims, Ops, MaxOps
VARIABLES c, d, ops, done
Init == c = <<>> /\ d = 1 /\ ops = <<>> /\ done = FALSE
Pick == /\ d <= Len(Dims)
        /\ \E v \in Dims[d][2] : c' = Append(c, [k |-> Dims[d][1], v |-> v])
        /\ d' = d + 1 /\ UNCHANGED <<ops, done>>
Op == /\ d > Len(Dims) /\ ~done /\ Len(ops) < MaxOps
      /\ \E o \in Ops : ops' = Append(ops, o)
      /\ UNCHANGED <<c, d, done>>
End == /\ d > Len(Dims) /\ ~done /\ Len(ops) = MaxOps
       /\ done' = TRUE /\ UNCHANGED <<c, d, ops>>
Next == Pick \/ Op \/ End
Emit == done => PrintT("SCN " \o ToJson([c |-> c, ops |-> ops]))
=============================================================================
