------------------------------- MODULE LifeTrace -------------------------------
(* Validation of recorded optimizer runs against LifeCore.
   Trace header: mode  "hash" | "step" | "real"   which update rule is in force
                 ne    number of design elements
                 conv  convergence checking enabled;  tol  density tolerance (1/1024)
                 ref   densities after iteration i of the uninterrupted run (real mode; may be <<>>)
                 refh  sequence of [name, data] histories of the uninterrupted run
   Clauses are named; the set checked is restricted to those of the property decided. *)
EXTENDS TraceBase, LifeCore
VARIABLES tid, l, s

Own == SeqSet(Traces[tid].clauses)

(* ---- convergence: both criteria, non-finite residual does not block ---- *)
KktBelow(k) == k \in {"below", "negbelow", "zero", "nan", "inf", "neginf"}
Conv(tr, q, q2, k) == tr.conv /\ Change(q, q2) < tr.tol /\ KktBelow(k)

NextQ(tr, st, x) == CASE tr.mode = "hash" -> HashUpd(st.q, st.next, st.salt)
                      [] tr.mode = "step" -> StepUpd(st.q, x.d)
                      [] OTHER -> x.after

(* run the iterations the event reports, as far as the specification allows them *)
RECURSIVE RunEv(_, _, _, _, _)
RunEv(tr, st, e, last, i) ==
  IF i > Len(e.iters) \/ st.next > last \/ st.done THEN [st |-> st, n |-> i - 1, bad |-> {}]
  ELSE LET x == e.iters[i]
           bad == Clause("order", x.it = st.next)
                  \cup Clause("before", x.before = st.q)
                  \cup (IF tr.mode = "real" /\ tr.ref # <<>>
                        THEN Clause("reference", x.after = tr.ref[st.next]) ELSE {})
       IN IF "order" \in bad \/ (tr.mode = "real" /\ Len(x.after) # tr.ne)
          THEN [st |-> st, n |-> i - 1, bad |-> bad]
          ELSE LET q2 == NextQ(tr, st, x)
                   r == RunEv(tr, IterS(st, q2, last, Conv(tr, st.q, q2, x.k)), e, last, i + 1)
               IN [r EXCEPT !.bad = @ \cup bad]

Complete(ck) == {ck[i].it : i \in {j \in 1..Len(ck) : ck[j].ok}}
ContentOf(ck, k) == LET i == CHOOSE i \in 1..Len(ck) : ck[i].it = k IN ck[i].q
Slack(tr) == IF tr.mode = "real" THEN 3 ELSE 0
HistOk(h, ids, chg, slack) ==
  /\ h.ok /\ h.ids = ids /\ Len(h.chg) = Len(chg)
  /\ \A i \in 1..Len(chg) : Near(h.chg[i], chg[i], slack)      \* rounding of real densities
  /\ \A i \in 1..Len(h.lens) : h.lens[i] = Len(ids)

(* ---- a request that returned ---- *)
ViolRequest(tr, st, e) ==
  IF ~st.alive THEN {"harness_request_without_optimizer"} ELSE
  IF Effective(st, e.n) /\ LoadFails(st)
  THEN Clause("restart_must_fail", e.error # "") \cup Clause("no_iterations_on_failure", e.iters = <<>>)
  ELSE IF e.error # "" THEN {"request_raised"}
  ELSE IF ~Effective(st, e.n)
  THEN Clause("noop_iterates", e.iters = <<>>)
       \cup Clause("noop_checkpoints", Complete(e.ck) = DOMAIN st.ck
                                       /\ \A k \in Complete(e.ck) : ContentOf(e.ck, k) = st.ck[k])
       \cup (IF st.loaded THEN Clause("noop_history", HistOk(e.mem, st.hist, st.chg, Slack(tr))) ELSE {})
       \cup (IF e.disk.present \/ st.dhist # <<>>
             THEN Clause("noop_disk_history", HistOk(e.disk, st.dhist, st.dchg, Slack(tr))) ELSE {})
  ELSE LET t == LoadS(st, tr.q0)
           last == Last(t, e.n)
           none == t.next > t.M
           r == IF none THEN [st |-> [t EXCEPT !.done = TRUE, !.dhist = t.hist, !.dchg = t.chg],
                              n |-> 0, bad |-> {}]
                ELSE RunEv(tr, t, e, last, 1)
           u == r.st
           first == st.loaded \/ st.from = 0
       IN r.bad
          \cup Clause("executed", r.n = Len(e.iters) /\ (none \/ u.done \/ u.next = last + 1))
          \cup Clause("checkpoint_set", Complete(e.ck) = DOMAIN u.ck)
          \cup Clause("checkpoint_content", \A k \in Complete(e.ck) \cap DOMAIN u.ck :
                                               ContentOf(e.ck, k) = u.ck[k])
          \cup Clause("no_partial_checkpoint", \A i \in 1..Len(e.ck) : e.ck[i].ok)
          \cup Clause("meshes", DOMAIN u.ck \subseteq SeqSet(e.vtu)
                                /\ (e.fresh => SeqSet(e.vtu) = DOMAIN u.ck))
          \cup Clause("mesh_content", \A i \in 1..Len(e.vtubad) : FALSE)
          \cup Clause("history", HistOk(e.mem, u.hist, u.chg, Slack(tr)))
          \cup Clause("disk_history", HistOk(e.disk, u.dhist, u.dchg, Slack(tr)))
          \cup (IF tr.mode = "real" /\ tr.refh # <<>>
                THEN Clause("reference_history",
                       \A i \in 1..Len(tr.refh) :
                         \E j \in 1..Len(e.hist) :
                            /\ e.hist[j].name = tr.refh[i].name
                            /\ e.hist[j].data = Take(tr.refh[i].data, Len(e.hist[j].data))
                            /\ Len(e.hist[j].data) = tr.refh[i].w * Len(u.hist))
                ELSE {})
After(tr, st, e) ==
  IF ~Effective(st, e.n) THEN st
  ELSE IF LoadFails(st) THEN KillS(st)
  ELSE LET t == LoadS(st, tr.q0) IN
       IF t.next > t.M THEN [t EXCEPT !.done = TRUE, !.dhist = t.hist, !.dchg = t.chg]
       ELSE RunEv(tr, t, e, Last(t, e.n), 1).st

(* ---- a request during which the process was killed ---- *)
KilledParts(tr, st, e) ==
  LET t == LoadS(st, tr.q0)
      m == Len(e.iters)
      all == RunEv(tr, t, e, Last(t, e.n), 1)
      before == IF m = 0 THEN [st |-> t, n |-> 0, bad |-> {}]
                ELSE RunEv(tr, t, [e EXCEPT !.iters = SubSeq(@, 1, m - 1)], Last(t, e.n), 1)
  IN [t |-> t, all |-> all, before |-> before]
ViolKilled(tr, st, e) ==
  IF ~Effective(st, e.n) \/ LoadFails(st) \/ LoadS(st, tr.q0).next > st.M
  THEN Clause("executed", e.iters = <<>>) ELSE
  LET p == KilledParts(tr, st, e)
      must == DOMAIN p.before.st.ck
      may == DOMAIN p.all.st.ck \cup (IF e.iters = <<>> THEN DOMAIN st.ck ELSE {})
  IN p.all.bad
     \cup Clause("executed", p.all.n = Len(e.iters))
     \cup Clause("checkpoint_lost", must \subseteq Complete(e.ck))
     \cup Clause("checkpoint_set", Complete(e.ck) \subseteq may)
     \cup Clause("checkpoint_content",
            \A k \in Complete(e.ck) : ContentOf(e.ck, k) =
               (IF k \in DOMAIN p.all.st.ck THEN p.all.st.ck[k] ELSE st.ck[k]))
     \cup Clause("disk_history_lost",
            Complete(e.ck) # {} =>
               /\ e.disk.ok /\ Len(e.disk.ids) >= MaxI(Complete(e.ck))
               /\ e.disk.ids = Iota(Len(e.disk.ids))
               /\ \A i \in 1..Len(e.disk.lens) : e.disk.lens[i] = Len(e.disk.ids))
AfterKilled(tr, st, e) ==
  IF ~Effective(st, e.n) \/ LoadFails(st) \/ LoadS(st, tr.q0).next > st.M THEN KillS(st) ELSE
  LET p == KilledParts(tr, st, e)
      full == IF Len(p.all.st.chg) >= Len(e.disk.ids) THEN p.all.st.chg ELSE st.dchg
  IN [KillS(p.all.st) EXCEPT
        !.ck = [k \in Complete(e.ck) |-> ContentOf(e.ck, k)],
        !.dhist = e.disk.ids, !.dchg = Take(full, Len(e.disk.ids))]

Viol(tr, st, e) ==
  CASE e.op \in {"fresh", "restart"} -> Clause("constructor_raised", e.error = "")
                 \cup (IF e.op = "fresh" THEN Clause("fresh_directory", Complete(e.ck) = {}) ELSE {})
    [] e.op = "request" -> ViolRequest(tr, st, e)
    [] e.op = "killed"  -> ViolKilled(tr, st, e)
    [] OTHER            -> {}
Step(tr, st, e) ==
  CASE e.op = "fresh"   -> FreshS(st, e.salt, e.M, e.R)
    [] e.op = "restart" -> RestartS(st, e.from, e.M, e.R)
    [] e.op = "request" -> After(tr, st, e)
    [] e.op = "killed"  -> AfterKilled(tr, st, e)
    [] OTHER            -> st          \* foreign files, idle time

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = Nothing
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Step(tr, s, e)
       ELSE /\ (v \cap Own # {} =>
                  PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v \cap Own])))
            /\ (v \cap Own = {} =>
                  PrintT("OTHER " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v])))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
