-------------------------------- MODULE Solve --------------------------------
(* Design of the state solve: load cases that may constrain different sets share factors of
   the same constrained set; the iterative backend may fail; only "auto" may fall back.     *)
EXTENDS SolveCore, TLC
CONSTANTS NCases, Sets, Backends, Laws
VARIABLES cases, backend, fault, installed, todo, factors, sol, status, used
vars == <<cases, backend, fault, installed, todo, factors, sol, status, used>>
Init == /\ cases \in UNION {[1..n -> Sets \X (1..2)] : n \in 1..NCases}   \* constrained set, load
        /\ backend \in Backends /\ fault \in BOOLEAN /\ installed \in BOOLEAN
        /\ todo = DOMAIN cases /\ factors = {} /\ sol = <<>> /\ status = "run" /\ used = {}
(* the solution of a case is named by the constrained set of the factor and its load *)
N == Cardinality(DOMAIN cases)
Reject == /\ status = "run" /\ used = {} /\ \/ backend \notin Direct \cup Iterative \cup (IF installed THEN External ELSE {})
                                            \/ backend \in Iterative /\ N > 1
          /\ status' = "error" /\ UNCHANGED <<cases, backend, fault, installed, todo, factors, sol, used>>
CanDirect == backend \in Direct
Factor(i) == /\ status = "run" /\ CanDirect /\ i \in todo /\ cases[i][1] \notin factors
             /\ factors' = factors \cup {cases[i][1]} /\ used' = used \cup {"direct"}
             /\ UNCHANGED <<cases, backend, fault, installed, todo, sol, status>>
SolveDirect(i) == /\ status = "run" /\ CanDirect /\ i \in todo /\ cases[i][1] \in factors
                  /\ sol' = Append(sol, <<i, cases[i][1], cases[i][2]>>) /\ todo' = todo \ {i}
                  /\ UNCHANGED <<cases, backend, fault, installed, factors, status, used>>
Iterate(i) == /\ status = "run" /\ (backend \in Iterative \/ backend = "auto") /\ N = 1 /\ i \in todo
              /\ used' = used \cup {"iterative"}
              /\ IF fault THEN /\ status' = (IF backend = "auto" THEN "run" ELSE "error") /\ sol' = sol /\ todo' = todo
                 ELSE /\ sol' = Append(sol, <<i, cases[i][1], cases[i][2]>>) /\ todo' = todo \ {i} /\ status' = status
              /\ UNCHANGED <<cases, backend, fault, installed, factors>>
(* an external solve tells only afterwards whether each case converged *)
Ask(i) == /\ status = "run" /\ backend \in External /\ installed /\ i \in todo
          /\ used' = used \cup {"external"}
          /\ \E conv \in IF fault THEN BOOLEAN ELSE {TRUE} :
               IF conv THEN /\ sol' = Append(sol, <<i, cases[i][1], cases[i][2]>>) /\ todo' = todo \ {i}
                            /\ status' = IF fault /\ todo' = {} THEN "error" ELSE status   \* some case fails
               ELSE status' = "error" /\ sol' = sol /\ todo' = todo
          /\ UNCHANGED <<cases, backend, fault, installed, factors>>
Finish == /\ status = "run" /\ todo = {} /\ status' = "solved"
          /\ UNCHANGED <<cases, backend, fault, installed, todo, factors, sol, used>>
Next == Reject \/ Finish \/ \E i \in DOMAIN cases : Factor(i) \/ SolveDirect(i) \/ Iterate(i) \/ Ask(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OutcomeAllowed == status # "run" => status \in Allowed("elastic", backend, installed, fault, N)
NoOtherBackend == status = "solved" => used \subseteq MayUse(backend)
EveryCaseOnItsOwn == status = "solved" =>
   \A i \in DOMAIN cases : \E k \in 1..Len(sol) : sol[k] = <<i, cases[i][1], cases[i][2]>>
OncePerCase == \A j \in 1..Len(sol) : \A k \in 1..Len(sol) : sol[j][1] = sol[k][1] => j = k
Terminates == <>(status # "run")

(* the bar: more material never makes it softer, anywhere *)
RhoSet == {1, 3, 6, 10}
BarMonotone == \A law \in Laws : \A p \in 1..3 : \A a \in RhoSet : \A b \in RhoSet :
   a <= b => Flex(law, b, p) <= Flex(law, a, p)
===============================================================================
