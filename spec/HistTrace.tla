------------------------------- MODULE HistTrace -------------------------------
(* Recorded executions of HistoryCollection against HistCore. An event carries the
   contents of both collections and the latest-value answers after the operation. *)
EXTENDS TraceBase, HistCore
VARIABLES tid, l, s

Apply(st, e) ==
  CASE e.op = "register"  -> [st EXCEPT !.coll[e.c] = Register(@, e.n, e.kind, e.ylog, <<>>)]
    [] e.op = "regshared" -> [st EXCEPT !.coll[e.c] =
                                [n \in {"a", "b"} |-> [kind |-> "value", ylog |-> e.ylog,
                                                       data |-> <<<<4000>>, <<1500>>>>]]]
    [] e.op = "feed"      -> [st EXCEPT !.coll[e.c] = Feed(@, e.n, Vals[e.v])]
    [] e.op = "export"    -> [st EXCEPT !.file = Put(@, Key(e.f), FileOf(st.coll[e.c]))]
    [] e.op = "plot"      -> st
    [] e.op = "import"    -> [st EXCEPT !.coll[e.c] = Import(@, st.file[Key(e.f)])]
Obs(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
NamesOf(q) == {q[i].n : i \in 1..Len(q)}
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 1)
(* registering with a logarithmic axis also gives a limit to draw *)
Settings(x, w) == x.ylog = w.ylog /\ (IF w.ylog THEN x.const ELSE x.noconst)
SameColl(a, b) == /\ DOMAIN a = DOMAIN b
                  /\ \A n \in DOMAIN a : a[n].kind = b[n].kind /\ a[n].data = b[n].data

(* progress plots: one panel per series with entries, at most eight panels on a page *)
Plot(st, e) ==
  LET w == st.coll[e.c]
      X == {i \in 1..Len(e.extra) : e.extra[i] # <<>>}
      nm(i) == "extra" \o ToString(i - 1)
      drawn == {n \in DOMAIN w : w[n].data # <<>>}
      total == Cardinality(DOMAIN w) + Len(e.extra)
      panel(n) == Obs(e.panels, n) IN
  Clause("panels", NamesOf(e.panels) = drawn \cup {nm(i) : i \in X}
                   /\ Len(e.panels) = Cardinality(drawn) + Cardinality(X))
  \cup Clause("pages", e.pages = (total + 7) \div 8)
  \cup Clause("iterations_along_x", \A i \in DOMAIN e.panels : e.panels[i].x)
  \cup UNION {LET d == w[n].data  p == panel(n)  k == Min2(3, Len(d[1])) IN
         Clause("curves", Len(p.lines) = k /\ \A j \in 1..k :
                   Close(p.lines[j], [i \in 1..Len(d) |-> d[i][j]]))
         \cup Clause("band", IF Len(d[1]) = 4
               THEN Len(p.band) = Len(d) /\ \A i \in 1..Len(d) :
                      Near(p.band[i][1], d[i][2] - d[i][4], 2) /\ Near(p.band[i][2], d[i][2] + d[i][4], 2)
               ELSE p.band = <<>>)
         \cup Clause("axis", p.ylog = w[n].ylog)
       : n \in drawn \cap NamesOf(e.panels)}
  \cup UNION {Clause("curves", panel(nm(i)).lines = <<[j \in 1..Len(e.extra[i]) |-> 1000 * e.extra[i][j]]>>)
             : i \in {j \in X : nm(j) \in NamesOf(e.panels)}}

Viol(st, e) ==
  IF e.error # "" THEN {"operation_raised"} ELSE
  IF e.op = "plot" THEN Plot(st, e) ELSE
  LET t == Apply(st, e) IN
  UNION {LET q == e.coll[c]  w == t.coll[c] IN
         Clause("registered_series", NamesOf(q) = DOMAIN w /\ Len(q) = Cardinality(DOMAIN w))
         \cup UNION {LET x == Obs(q, n) IN
                Clause("kind", x.kind = w[n].kind)
                \cup Clause("plot_settings", Settings(x, w[n]))
                \cup Clause("number_of_entries", Len(x.data) = Len(w[n].data))
                \cup Clause("entries", Len(x.data) = Len(w[n].data) =>
                              \A i \in 1..Len(x.data) : Close(x.data[i], w[n].data[i]))
                \cup Clause("latest", IF w[n].data = <<>> THEN x.latest = <<>>
                                      ELSE Close(x.latest, w[n].data[Len(w[n].data)]))
                \cup Clause("exists", x.exists = (w[n].data # <<>>))
                \cup Clause("array", Len(x.array) = Len(w[n].data)
                                     /\ \A i \in DOMAIN x.array : Close(x.array[i], w[n].data[i]))
              : n \in NamesOf(q) \cap DOMAIN w}
         \cup Clause("latest_of_unknown_fails", e.unknown[c])
         \cup LET o == e.obj[c] IN
              Clause("as_object", (\A n \in DOMAIN w : w[n].data # <<>>) =>
                /\ SeqSet(o.full) = DOMAIN w
                /\ \A i \in DOMAIN o.full : o.full[i] \in DOMAIN w =>
                     LET d == w[o.full[i]].data IN
                     /\ Close(o.last[i], d[Len(d)])
                     /\ Len(o.all[i]) = Len(d) /\ \A j \in DOMAIN d : Close(o.all[i][j], d[j]))
        : c \in {1, 2}}
  \cup Clause("comparison", e.same = SameColl(t.coll[1], t.coll[2]))

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = [coll |-> <<<<>>, <<>>>>, file |-> <<>>]
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Apply(s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
