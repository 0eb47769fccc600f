------------------------------ MODULE ContTrace ------------------------------
(* Validation of recorded schedule evaluations. Values are scaled by Unit.      *)
EXTENDS TraceBase, ContCore
VARIABLES tid, l, s

Unit == 10000
Empty == [lev |-> [k \in {} |-> 0], seen |-> {}]
Ext(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]

Match(x, r) == Abs(x * r[2] - r[1]) <= r[2]       \* within one unit of the scale
Between(x, a, b) == \/ x * a[2] >= a[1] - a[2] /\ x * b[2] <= b[1] + b[2]
                    \/ x * b[2] >= b[1] - b[2] /\ x * a[2] <= a[1] + a[2]
LevelAt(sc, k, c) == Blend(sc, Unit, Progress(sc.typ, k, sc.n, c))
StepOk(sc, it, x) ==
  LET c == sc.c \div 10 IN
  IF sc.typ \in Linear \/ sc.c % 10 = 0
  THEN \E k \in Idxs(it, sc.n, sc.T) : Match(x, LevelAt(sc, k, c))
  ELSE \E k \in Idxs(it, sc.n, sc.T) :
         IF c = 0 THEN Between(x, LevelAt(sc, k, 1), IF k = 0 THEN LevelAt(sc, 0, 1) ELSE
                                 IF sc.typ \in Accel THEN Target(sc, Unit) ELSE
                                 IF k = sc.n - 1 THEN Target(sc, Unit) ELSE LevelAt(sc, 0, 1))
         ELSE Between(x, LevelAt(sc, k, c), LevelAt(sc, k, c + 1))

Viol(tr, st, e) ==
  LET sc == tr.s IN
  CASE e.op = "valid" ->
         Clause(IF e.accepted THEN "invalid_specification_accepted" ELSE "valid_specification_rejected",
                e.accepted = Valid(sc.typ, SeqSet(sc.g), sc.n, sc.one))
    [] e.op = "value" ->
         IF sc.typ = "None" THEN Clause("disabled_schedule", e.none)
         ELSE IF e.none THEN {"no_value"}
         ELSE IF AtEnd(sc, e.it)
              THEN Clause(IF sc.typ \in Consts \/ sc.n <= 0 THEN "constant" ELSE "target_at_end",
                          Match(e.v, Target(sc, Unit)))
         ELSE IF sc.typ = "SawtoothDecay"
              THEN Clause("sawtooth", Match(e.v, Blend(sc, Unit, SawProgress(e.it, sc.n, sc.T))))
         ELSE Clause("plateau_level", StepOk(sc, e.it, e.v))
              \cup (IF Cardinality(Idxs(e.it, sc.n, sc.T)) > 1 THEN {} ELSE
                    LET k == Idx(e.it, sc.n, sc.T) IN
                    Clause("plateau_constant", k \in DOMAIN st.lev => Near(st.lev[k], e.v, 1))
                    \cup Clause("monotone", \A j \in DOMAIN st.lev :
                           LET up == Target(sc, Unit)[1] >= (IF sc.typ \in ToOne THEN Unit \div sc.n ELSE sc.init)
                               d == IF j < k THEN e.v - st.lev[j] ELSE st.lev[j] - e.v IN
                           IF j = k THEN TRUE ELSE IF up THEN d >= -1 ELSE d <= 1))
    [] e.op = "end" ->
         Clause("number_of_plateaus",
           (sc.typ \in Steps /\ sc.n > 1 /\ sc.n < sc.T /\ tr.full /\ sc.init # sc.target)
              => Cardinality(st.seen) = sc.n)
    [] OTHER -> {"unknown_event"}
Apply(tr, st, e) ==
  IF e.op # "value" THEN st
  ELSE IF tr.s.typ \notin Steps \/ AtEnd(tr.s, e.it)
  THEN [st EXCEPT !.seen = @ \cup {e.id}]
  ELSE LET k == Idx(e.it, tr.s.n, tr.s.T) IN
       [lev |-> IF Cardinality(Idxs(e.it, tr.s.n, tr.s.T)) > 1 THEN st.lev ELSE Ext(st.lev, k, e.v),
        seen |-> st.seen \cup {e.id}]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = Empty
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Apply(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
