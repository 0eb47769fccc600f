------------------------------- MODULE LifeCore -------------------------------
(* Request level semantics of an optimization run: requests, checkpoints,
   histories, restarts. Densities are vectors of integers in units of 1/1024.

   State s:
     alive   an optimizer object exists            from   0 fresh, -1 auto, k explicit
     loaded  first effective request happened       M, R   max_iters, record_times
     next    next iteration                         salt   identity of the fresh run
     done    run complete                           q      design densities
     hist    iterations recorded in memory          chg    recorded density changes
     ck      complete checkpoints: iter -> q        dhist, dchg  histories on disk
     runsalt salt of the most recent fresh run in the directory                 *)
EXTENDS Integers, Sequences, FiniteSets

MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
MinI(a, b) == IF a <= b THEN a ELSE b
Iota(n) == [i \in 1..n |-> i]
Take(q, n) == SubSeq(q, 1, MinI(n, Len(q)))

(* scripted update rules used by the replay harness *)
HashUpd(q, it, salt) == [e \in 1..Len(q) |-> ((5 * q[e] + 11 * it + 17 * e + salt) % 800) + 100]
(* a step of size d for the first element, smaller for the others *)
StepUpd(q, d) == [e \in 1..Len(q) |->
                    IF q[e] >= 512 THEN q[e] - (IF e = 1 THEN d ELSE d \div 2)
                                   ELSE q[e] + (IF e = 1 THEN d ELSE d \div 2)]
AbsI(x) == IF x < 0 THEN -x ELSE x
Change(a, b) == MaxI({AbsI(a[e] - b[e]) : e \in 1..Len(a)})


Nothing == [alive |-> FALSE, loaded |-> FALSE, next |-> 1, done |-> FALSE, from |-> 0,
            M |-> 0, R |-> 0, salt |-> 0, q |-> <<>>, hist |-> <<>>, chg |-> <<>>,
            ck |-> <<>>, dhist |-> <<>>, dchg |-> <<>>, runsalt |-> 0]

FreshS(s, salt, M, R) ==
  [Nothing EXCEPT !.alive = TRUE, !.M = M, !.R = R, !.salt = salt, !.runsalt = salt]
RestartS(s, from, M, R) ==
  [s EXCEPT !.alive = TRUE, !.loaded = FALSE, !.next = 1, !.done = FALSE, !.from = from,
            !.M = M, !.R = R, !.salt = s.runsalt, !.q = <<>>, !.hist = <<>>, !.chg = <<>>]
KillS(s) == [s EXCEPT !.alive = FALSE, !.loaded = FALSE]

(* which checkpoint a restart loads: 0 when there is none to load *)
Target(s) == IF s.from > 0 THEN (IF s.from \in DOMAIN s.ck THEN s.from ELSE 0)
             ELSE IF DOMAIN s.ck = {} THEN 0 ELSE MaxI(DOMAIN s.ck)
LoadFails(s) == ~s.loaded /\ s.from # 0 /\ Target(s) = 0

LoadS(s, q0) ==
  IF s.loaded THEN s
  ELSE IF s.from = 0 THEN [s EXCEPT !.loaded = TRUE, !.next = 1, !.q = q0]
  ELSE LET k == Target(s) IN
       [s EXCEPT !.loaded = TRUE, !.next = k + 1, !.q = s.ck[k],
                 !.hist = Take(s.dhist, k), !.chg = Take(s.dchg, k),
                 (* checkpoints of the abandoned continuation are forgotten *)
                 !.ck = [i \in {j \in DOMAIN s.ck : j <= k} |-> s.ck[i]]]

Interval(s) == LET d == s.M \div s.R IN IF d < 1 THEN 1 ELSE d
Due(s, it, last, conv) == it = 1 \/ it % Interval(s) = 0 \/ it = last \/ conv

(* one iteration with new densities q2; conv: both criteria hold *)
IterS(s, q2, last, conv) ==
  LET it == s.next
      h == Append(s.hist, it)
      c == Append(s.chg, Change(s.q, q2))
      due == Due(s, it, last, conv)
  IN [s EXCEPT !.next = it + 1, !.q = q2, !.hist = h, !.chg = c, !.done = conv \/ it >= s.M,
               !.dhist = IF due THEN h ELSE @, !.dchg = IF due THEN c ELSE @,
               !.ck = IF due THEN [i \in DOMAIN @ \cup {it} |-> IF i = it THEN q2 ELSE @[i]]
                             ELSE @]

Full == 9999                                  \* request argument standing for "to the end"
Last(s, n) == MinI(s.next + n - 1, s.M)
Effective(s, n) == s.alive /\ ~s.done /\ n > 0

RECURSIVE RunHash(_, _)
RunHash(s, last) == IF s.next > last THEN s
                    ELSE RunHash(IterS(s, HashUpd(s.q, s.next, s.salt), last, FALSE), last)
(* a request without convergence checking *)
RequestHash(s, n, q0) ==
  IF ~Effective(s, n) THEN s
  ELSE LET t == LoadS(s, q0) IN
       IF t.next > t.M THEN [t EXCEPT !.done = TRUE, !.dhist = t.hist, !.dchg = t.chg]
       ELSE RunHash(t, Last(t, n))
=============================================================================
