-------------------------------- MODULE ConvGen --------------------------------
(* Convergence scripts: for every iteration a density change and a residual class. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS M, Ds
VARIABLE script
Ks == {"below", "negbelow", "at", "above", "negabove", "nan"}
Init == script = <<>>
Next == Len(script) < M /\ \E d \in Ds, k \in Ks : script' = Append(script, [d |-> d, k |-> k])
Emit == Len(script) = M => PrintT("SCN " \o ToJson([script |-> script]))
=============================================================================
