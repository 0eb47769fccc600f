-------------------------------- MODULE Timer --------------------------------
(* Design model of the section timer and scenario generator. *)
EXTENDS TimerCore, TLC, Json
CONSTANTS Names, Ticks, Depth, Hier, Manual, Gen, Hows

VARIABLES s, now, hist, roots, manual
vars == <<s, now, hist, roots, manual>>

Init == s = Empty /\ now = 0 /\ hist = <<>> /\ roots = 0 /\ manual = FALSE

Op(r) == IF Gen THEN Append(hist, r) ELSE IF Len(hist) < Depth THEN Append(hist, 0) ELSE hist

EnterA(n, how, dt) ==
  /\ s' = Enter(s, n, now + dt) /\ now' = now + dt /\ UNCHANGED <<roots, manual>>
  /\ hist' = Op([op |-> "enter", n |-> n, how |-> how, dt |-> dt, d |-> 0])
LeaveA(how, dt) ==
  /\ s.stack # <<>>
  /\ s' = Leave(s, Hier, now + dt) /\ now' = now + dt /\ UNCHANGED manual
  /\ roots' = IF Len(s.stack) = 1 THEN roots + now + dt - s.stack[1].start ELSE roots
  /\ hist' = Op([op |-> "leave", n |-> "", how |-> how, dt |-> dt, d |-> 0])
AddA(n, d) ==
  /\ Manual /\ s' = Add(s, <<n>>, d) /\ manual' = TRUE /\ UNCHANGED <<now, roots>>
  /\ hist' = Op([op |-> "add", n |-> n, how |-> "", dt |-> 0, d |-> d])
ResetA(n) ==
  /\ Manual /\ s' = Reset(s, <<n>>) /\ manual' = TRUE /\ UNCHANGED <<now, roots>>
  /\ hist' = Op([op |-> "reset", n |-> n, how |-> "", dt |-> 0, d |-> 0])
ResetAllA ==
  /\ Manual /\ s' = ResetAll(s) /\ manual' = TRUE /\ UNCHANGED <<now, roots>>
  /\ hist' = Op([op |-> "resetall", n |-> "", how |-> "", dt |-> 0, d |-> 0])

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E n \in Names, dt \in Ticks, how \in Hows : EnterA(n, how, dt)
     \/ \E dt \in Ticks, how \in (IF Gen THEN {"ok", "raise"} ELSE {"ok"}) : LeaveA(how, dt)
     \/ \E n \in Names, d \in {2} : AddA(n, d)
     \/ \E n \in Names : ResetA(n)
     \/ ResetAllA
Spec == Init /\ [][Next]_vars

(* Every elapsed time is accounted exactly once: without manual entries and with
   every section closed, the self times of a hierarchical timer add up to the
   time spent inside top level sections, and no self time had to be clamped.   *)
RECURSIVE SumSelf(_, _)
SumSelf(st, S) == IF S = {} THEN 0
                  ELSE LET q == CHOOSE q \in S : TRUE IN SelfTime(st, q) + SumSelf(st, S \ {q})
Conservation == (Hier /\ ~manual /\ s.stack = <<>>) => SumSelf(s, Paths(s)) = roots
NoClamp == (Hier /\ ~manual /\ s.stack = <<>>) => \A p \in Paths(s) : RawSelf(s, p) >= 0
MaxBound == \A p \in Paths(s) : s.rec[p][3] <= s.rec[p][2] /\ s.rec[p][2] <= s.rec[p][1] * s.rec[p][3]
(* records only grow unless reset *)
Grow == [][manual' \/ \A p \in Paths(s) : p \in Paths(s)' /\ s'.rec[p][1] >= s.rec[p][1]]_vars

Emit == (Gen /\ Len(hist) = Depth) => PrintT("SCN " \o ToJson([hier |-> Hier, ops |-> hist]))
=============================================================================
