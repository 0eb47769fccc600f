------------------------------ MODULE ScalingTrace ------------------------------
(* Validation of recorded pairs of runs, one with and one without normalisation. Ratios are
   millionths after removal of the factor of the quantity's dimension (1000000 = equivalent). *)
EXTENDS TraceBase, ScalingCore
VARIABLES tid, l, s
U == 1000000
RatioOk(q, tol) == \A i \in 1..Len(q) : Near(q[i], U, tol)
Tol == 2
Active(st) == st.norm /\ ~st.complete
(* o: state of the task after an operation; geometry and loads relative to the original ones
   (o.geo, o.loads) and relative to the normalised ones (o.ngeo, o.nloads)                *)
TaskViol(st, o) ==
  Clause("number_of_load_cases", o.ncases = st.n)
  \cup Clause("loads_kept_in_direction_and_order", \A i \in 1..Len(o.off) : Abs(o.off[i]) <= 2)
  \cup Clause("shape", Abs(o.shape) <= 2)
  \cup Clause("boundary_conditions", o.same)
  \cup Clause("design_domain", o.design)
  \cup Clause("tags", o.tags)
  \cup Clause("integration_rule", o.rule)
  \cup (IF Active(st) THEN
          Clause("unit_geometry", Near(o.ngeo, U, Tol))
          \cup Clause("normalised_loads", RatioOk(o.nloads, Tol))
          \cup Clause("volumes_of_normalised_geometry", RatioOk(o.nvol, 5))
        ELSE
          Clause("original_geometry", Near(o.geo, U, Tol))
          \cup Clause("original_loads", RatioOk(o.loads, Tol))
          \cup Clause("original_volumes", RatioOk(o.vol, 5)))
Runs(st, e) == IF st.complete THEN 0 ELSE Min2(e.ask, st.max - st.iter)
After(st, e) ==
  LET k == e.did IN [st EXCEPT !.iter = st.iter + k,
       !.complete = st.complete \/ st.iter + k = st.max \/ e.done]
Viol(tr, st, e) ==
  CASE e.op = "task" -> TaskViol([st EXCEPT !.n = tr.ncases, !.complete = TRUE], e.task)
    [] e.op = "build" ->
         LET st2 == [st EXCEPT !.norm = e.norm, !.complete = FALSE] IN TaskViol(st2, e.task)
    [] e.op = "analyse" ->
         Clause("compliance_per_case", Len(e.comp) = st.n /\ RatioOk(e.comp, 20))
         \cup Clause("displacement_per_case", RatioOk(e.disp, 20))
         \cup Clause("energy", RatioOk(e.energy, 20))
    [] e.op = "filter" -> Clause("same_filter", Abs(e.diff) <= 2)
    [] e.op = "run" ->
         Clause("iterations", e.did <= Runs(st, e) /\ e.did = e.twin)
         \cup Clause("completion", /\ (e.did < Runs(st, e) => e.done /\ tr.conv)
              /\ (e.done => ~st.complete /\ (tr.conv \/ st.iter + e.did = st.max)) /\ e.done = e.twindone
              /\ (~st.complete /\ st.iter + e.did = st.max => e.done))
         \cup Clause("same_design", Abs(e.rho) <= 2000)
         \cup Clause("same_history", RatioOk(e.comp, 3000))
         \cup TaskViol(After(st, e), e.task)
    [] OTHER -> {"raised"}
Next0(tr, st, e) ==
  CASE e.op = "task" -> [st EXCEPT !.n = tr.ncases, !.norm = FALSE, !.complete = TRUE]
    [] e.op = "build" -> [st EXCEPT !.norm = e.norm, !.complete = FALSE, !.iter = e.iter, !.max = e.max]
    [] e.op = "run" -> After(st, e)
    [] OTHER -> st
TInit == tid \in 1..Len(Traces) /\ l = 0
         /\ s = [n |-> 0, norm |-> FALSE, complete |-> TRUE, iter |-> 0, max |-> 0]
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Next0(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
