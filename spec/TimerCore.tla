------------------------------ MODULE TimerCore ------------------------------
(* Abstract section timer. A path is a sequence of section names; a flat timer
   records under the one-element path, a hierarchical one under the whole stack.
   rec maps a path to <<count, total, maximum>>; run maps a path to how often it was charted
   with a moving average, and the sum of the charted numbers scaled by 1000.               *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [stack |-> <<>>, rec |-> <<>>, run |-> <<>>]      \* functions with empty domain

Paths(s) == DOMAIN s.rec
StackNames(s) == [i \in 1..Len(s.stack) |-> s.stack[i].name]

PathOf(s, hier) == IF hier THEN StackNames(s) ELSE <<s.stack[Len(s.stack)].name>>

Put(rec, p, d) ==
  LET old == IF p \in DOMAIN rec THEN rec[p] ELSE <<0, 0, 0>>
      new == <<old[1] + 1, old[2] + d,
               IF old[1] = 0 \/ d > old[3] THEN d ELSE old[3]>>
  IN [q \in DOMAIN rec \cup {p} |-> IF q = p THEN new ELSE rec[q]]

Enter(s, name, now) == [s EXCEPT !.stack = Append(@, [name |-> name, start |-> now])]
Leave(s, hier, now) ==
  LET top == s.stack[Len(s.stack)]
  IN [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1),
      !.rec = Put(s.rec, PathOf(s, hier), now - top.start)]
Add(s, p, d) == [s EXCEPT !.rec = Put(@, p, d)]
Reset(s, p) == [s EXCEPT !.rec = [q \in DOMAIN @ \ {p} |-> @[q]], !.run = [q \in DOMAIN @ \ {p} |-> @[q]]]
ResetAll(s) == [s EXCEPT !.rec = <<>>, !.run = <<>>]

Children(s, p) == {q \in Paths(s) : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
RECURSIVE SumTotals(_, _)
SumTotals(s, S) == IF S = {} THEN 0
                   ELSE LET q == CHOOSE q \in S : TRUE IN s.rec[q][2] + SumTotals(s, S \ {q})
RawSelf(s, p) == s.rec[p][2] - SumTotals(s, Children(s, p))
SelfTime(s, p) == IF RawSelf(s, p) < 0 THEN 0 ELSE RawSelf(s, p)
(* what a chart shows, scaled by 1000 *)
Shown(s, p, value, selft) ==
  LET r == s.rec[p]  tot == IF selft THEN SelfTime(s, p) ELSE r[2] IN
  CASE value = "count" -> 1000 * r[1]
    [] value = "total" -> 1000 * tot
    [] value = "avg"   -> (1000 * tot) \div r[1]
    [] OTHER           -> 1000 * (IF selft THEN tot ELSE r[3])
RunPut(s, value, selft) ==
  [s EXCEPT !.run = [p \in DOMAIN @ \cup Paths(s) |->
     IF p \notin Paths(s) THEN @[p] ELSE
     LET o == IF p \in DOMAIN @ THEN @[p] ELSE <<0, 0>> IN <<o[1] + 1, o[2] + Shown(s, p, value, selft)>>]]
=============================================================================
