------------------------------ MODULE ConfigTrace ------------------------------
(* Validation of recorded exports, imports, runs and command lines. fields: sequence of
   [k, v] covering every setting, nested ones included.                                  *)
EXTENDS TraceBase, ConfigCore
VARIABLES tid, l, s
Fun(q) == [k \in {q[i].k : i \in 1..Len(q)} |-> (CHOOSE i \in 1..Len(q) : q[i].k = k) ]
Map(q) == LET f == Fun(q) IN [k \in DOMAIN f |-> q[f[k]].v]
Differ(a, b) == IF DOMAIN a # DOMAIN b THEN {"names"} ELSE {k \in DOMAIN a : a[k] # b[k]}

Viol(tr, st, e) ==
  CASE e.op = "new" -> {}
    [] e.op = "export" -> Clause("export_keeps_settings", Differ(Map(e.fields), Map(e.before)) = {})
    [] e.op = "legacy" -> {}
    [] e.op = "import" -> IF e.dir \notin DOMAIN st.disk THEN Clause("nothing_to_import", ~e.ok)
         ELSE IF ~e.ok THEN {"import_fails"} ELSE
         Clause("import_equals_export", Differ(Map(e.fields), st.disk[e.dir]) = {})
         \cup Clause("same_class", e.cls = e.wascls)
         \cup Clause("equal", e.equal)
    [] e.op = "run" -> Clause("identical_run", \A r \in st.runs : r[1] = Map(e.settings) => r[2] = e.digest)
    [] e.op = "base" -> Clause("defaults_valid", e.ok)
    [] e.op = "cli" -> IF ~st.hasbase THEN {} ELSE
         LET o == Map(e.opts) IN
         Clause("accepted_iff_valid", e.ok = Accepted(o, st.base))
         \cup Clause("settings_arrive", e.ok /\ Accepted(o, st.base) => Differ(Map(e.fields), Expected(o, st.base)) = {})
    [] OTHER -> {"raised"}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Next0(tr, st, e) ==
  CASE e.op = "export" -> [st EXCEPT !.disk = Put(st.disk, e.dir, Map(e.fields))]
    [] e.op = "run" -> [st EXCEPT !.runs = st.runs \cup {<<Map(e.settings), e.digest>>},
                                  !.disk = Put(st.disk, e.dir, Map(e.fields))]
    [] e.op = "base" -> [st EXCEPT !.base = Map(e.fields), !.hasbase = TRUE]
    [] OTHER -> st
TInit == tid \in 1..Len(Traces) /\ l = 0
         /\ s = [disk |-> <<>>, runs |-> {}, base |-> <<>>, hasbase |-> FALSE]
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Next0(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
