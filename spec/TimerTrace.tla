------------------------------ MODULE TimerTrace ------------------------------
(* Validation of recorded executions of SectionTimer: after every operation the
   reported statistics must be those of the abstract timer.                    *)
EXTENDS TraceBase, TimerCore
VARIABLES tid, l, s

Apply(tr, st, e) ==
  CASE e.op = "enter"    -> Enter(st, e.n, e.now)
    [] e.op = "leave"    -> Leave(st, tr.hier, e.now)
    [] e.op = "add"      -> Add(st, <<e.n>>, e.d)
    [] e.op = "reset"    -> Reset(st, <<e.n>>)
    [] e.op = "resetall" -> ResetAll(st)
    [] e.op = "plot"     -> IF e.moving /\ Paths(st) # {} THEN RunPut(st, e.value, e.selft) ELSE st

(* e.stats: sequence of [path, count, total, avg1000, max]; e.self likewise *)
PathSet(q) == {q[i].path : i \in 1..Len(q)}
RECURSIVE SumV(_, _)
SumV(v, S) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN v[q] + SumV(v, S \ {q})
(* a chart has one bar (or wedge) per section, at its own place, as long as its number *)
Chart(tr, st, e) ==
  LET P == Paths(st)
      t == Apply(tr, st, e)
      v == [p \in P |-> IF e.moving THEN t.run[p][2] \div t.run[p][1] ELSE Shown(st, p, e.value, e.selft)]
      tot == SumV(v, P)
      B == DOMAIN e.bars
      ok(b, p) == IF e.kind = "pie" THEN Abs((e.bars[b].w * tot) \div 1000 - 10 * v[p]) <= 2 + tot \div 1000
                  ELSE Abs(e.bars[b].w - v[p]) <= 2
      named(b, p) == IF e.nested /\ e.kind = "bar"
                     THEN e.bars[b].path = <<p[Len(p)]>> /\ e.bars[b].deep = 2 * (Len(p) - 1)
                     ELSE e.bars[b].path = p IN
  IF P = {} \/ (e.kind = "pie" /\ tot = 0) THEN Clause("nothing_to_chart_is_an_error", e.raised)
  ELSE IF e.raised THEN {"chart_raised"} ELSE
  Clause("one_bar_per_section", Len(e.bars) = Cardinality(P))
  \cup Clause("bars_apart", \A a, b \in B : a # b => e.bars[a].y # e.bars[b].y)
  \cup Clause("charted_values", (\A b \in B : \E p \in P : named(b, p) /\ ok(b, p))
                               /\ (\A p \in P : \E b \in B : named(b, p) /\ ok(b, p)))

Viol(tr, st, e) ==
  IF e.error # "" THEN {"operation_raised"} ELSE
  IF e.op = "plot" THEN Chart(tr, st, e) ELSE
  LET t == Apply(tr, st, e) IN
  LET ok == Len(e.stats) = Cardinality(Paths(t)) /\ PathSet(e.stats) = Paths(t)
      okself == Len(e.self) = Cardinality(Paths(t)) /\ PathSet(e.self) = Paths(t)
  IN Clause("sections_reported", ok)
     \cup Clause("self_sections_reported", okself)
     \cup Clause("exception_propagates", e.propagated)
     \cup Clause("wrapped_result", e.result)
     \cup (IF ~ok THEN {} ELSE
        UNION {LET x == e.stats[i]  r == t.rec[x.path] IN
               Clause("count", x.count = r[1]) \cup Clause("total", x.total = 1000 * r[2])
               \cup Clause("max", x.max = 1000 * r[3])
               \cup Clause("avg", Abs(x.avg * r[1] - 1000 * r[2]) <= r[1])
               : i \in 1..Len(e.stats)})
     \cup (IF ~okself THEN {} ELSE
        UNION {LET x == e.self[i] IN
               Clause("self_time", x.total = 1000 * SelfTime(t, x.path))
               \cup Clause("self_count", x.count = t.rec[x.path][1])
               : i \in 1..Len(e.self)})
     \cup UNION {LET k == e.sorted[i] IN
               Clause("summary_order", \A j \in 1..(Len(k.keys) - 1) :
                        IF k.desc THEN k.keys[j] >= k.keys[j+1] ELSE k.keys[j] <= k.keys[j+1])
               \cup Clause("summary_complete", Len(k.keys) = Cardinality(Paths(t)))
               : i \in 1..Len(e.sorted)}

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = Empty
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Apply(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
