-------------------------------- MODULE LifeGen --------------------------------
(* Request level scenario generator over LifeCore. *)
EXTENDS LifeCore, TLC, Json
CONSTANTS Ms, Rs, Steps, Depth, Restarts, RestartMs, MaxRuns, Kills, Foreign
VARIABLES s, hist, runs
Init == s = Nothing /\ hist = <<>> /\ runs = 0
NE == <<512>>
H(r) == hist' = Append(hist, r)
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Fresh(M, R) ==
  /\ runs < MaxRuns /\ LastOp \notin {"fresh", "restart", "foreign"}
  /\ s' = FreshS(s, runs + 1, M, R) /\ runs' = runs + 1
  /\ H([op |-> "fresh", M |-> M, R |-> R, n |-> 0, from |-> 0])
Req(n) ==
  /\ s.alive /\ LastOp # "foreign" /\ H([op |-> "request", n |-> n, M |-> 0, R |-> 0, from |-> 0])
  /\ s' = IF Effective(s, n) /\ LoadFails(s) THEN KillS(s) ELSE RequestHash(s, n, NE)
  /\ UNCHANGED runs
Kill(n) ==
  /\ Kills /\ Effective(s, n) /\ ~LoadFails(s) /\ LoadS(s, NE).next <= s.M
  /\ ~\E i \in 1..Len(hist) : hist[i].op = "kill"
  /\ H([op |-> "kill", n |-> n, M |-> 0, R |-> 0, from |-> 0])
  /\ s' = KillS(RequestHash(s, n, NE)) /\ UNCHANGED runs
Restart(f, M, R) ==
  /\ s.runsalt > 0 /\ LastOp \notin {"fresh", "restart"}
  /\ s' = RestartS(s, f, M, R) /\ H([op |-> "restart", M |-> M, R |-> R, n |-> 0, from |-> f])
  /\ UNCHANGED runs
ForeignA ==
  /\ Foreign /\ LastOp \in {"request", "kill"} /\ ~\E i \in 1..Len(hist) : hist[i].op = "foreign"
  /\ s' = KillS(s) /\ H([op |-> "foreign", M |-> 0, R |-> 0, n |-> 0, from |-> 0]) /\ UNCHANGED runs
Next == /\ Len(hist) < Depth
        /\ \/ \E M \in Ms, R \in Rs : Fresh(M, R)
           \/ \E n \in Steps : Req(n) \/ Kill(n)
           \/ \E f \in Restarts, M \in RestartMs, R \in Rs : Restart(f, M, R)
           \/ ForeignA
Emit == (Len(hist) = Depth /\ LastOp \in {"request", "kill"}) => PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
