----------------------------- MODULE DensityTrace -----------------------------
(* Validation of recorded runs of the real optimizers, one event per executed iteration.
   Densities, densities' bounds and the volume are scaled by 10^6; schedule values by 10^4. *)
EXTENDS TraceBase, DensityCore, ContCore
VARIABLES tid, l, s

PU == 10000
RU == 1000000
(* next: iteration to come; M: configured number of iterations; q: densities after the last update;
   qs: those after every iteration of the surviving run; lam: last multiplier, if known *)
Start(tr) == [next |-> 1, M |-> tr.M, q |-> <<>>, qs |-> <<>>, lam |-> 0, known |-> FALSE]

(* ---- C11: value of a parameter at iteration k of its schedule over M iterations ---- *)
SchedOk(sc, k, M, obs) ==
  LET x == [sc EXCEPT !.T = M] IN
  IF sc.typ = "None" THEN obs.none
  ELSE ~obs.none /\
       IF AtEnd(x, k) THEN Abs(obs.v * Target(x, PU)[2] - Target(x, PU)[1]) <= obs.tol * Target(x, PU)[2]
       ELSE IF x.typ = "SawtoothDecay"
            THEN LET b == Blend(x, PU, SawProgress(k, x.n, x.T)) IN Abs(obs.v * b[2] - b[1]) <= obs.tol * b[2]
       ELSE \E i \in Idxs(k, x.n, x.T) :
              LET b == Blend(x, PU, Progress(x.typ, i, x.n, x.c \div 10)) IN
              Abs(obs.v * b[2] - b[1]) <= obs.tol * b[2]

(* scheduled move limit and volume target as exact as needed by the density clauses: the
   largest value among the admissible plateaus, scaled by RU *)
ValsRU(sc, k, M) ==
  LET x == [sc EXCEPT !.T = M] IN
  IF AtEnd(x, k) THEN {Target(x, PU)}
  ELSE IF x.typ = "SawtoothDecay" THEN {Blend(x, PU, SawProgress(k, x.n, x.T))}
  ELSE {Blend(x, PU, Progress(x.typ, i, x.n, x.c \div 10)) : i \in Idxs(k, x.n, x.T)}
InRU(b) == (b[1] * 100) \div b[2]     \* PU-scaled rational to RU scaled integer (rounded down)

Conn(tr) == [e \in 1..Len(tr.conn) |-> SeqSet(tr.conn[e])]
SolidSet(tr) == Solid(Conn(tr), SeqSet(tr.request), SeqSet(tr.loaded), SeqSet(tr.supported),
                      SeqSet(tr.convective), tr.dd, tr.dconv)

Fin(x) == x # NAN /\ Abs(x) < 2000000000
Tol == 3

C07(tr, st, e) ==
  LET mv == {InRU(b) : b \in ValsRU(tr.sched.move_limit, e.k, st.M)}
      m == SetMax(mv)
      D == 1..Len(e.before) IN
  IF Len(e.after) # Len(e.before) THEN {"same_elements"}
  ELSE IF \E i \in D : ~Fin(e.after[i]) \/ ~Fin(e.before[i]) THEN {"finite"}
  ELSE
  Clause("bounds", \A i \in D : e.after[i] >= tr.lo - Tol /\ e.after[i] <= tr.hi + Tol)
  \cup Clause("bounds_before", \A i \in D : e.before[i] >= tr.lo - Tol /\ e.before[i] <= tr.hi + Tol)
  \cup Clause("move_limit", \A i \in D : Abs(e.after[i] - e.before[i]) <= m + 2 + Tol)
  \cup (IF tr.rule = "oc"
        THEN Clause("scaling_interval", \A i \in D :
               /\ e.after[i] * 1000 <= e.before[i] * tr.smax1000 + 1000 * Tol
               /\ e.after[i] * 1000 >= e.before[i] * tr.smin1000 - 1000 * Tol \/ e.after[i] <= tr.lo + Tol)
        ELSE {})

C08(tr, st, e) ==
  LET S == SolidSet(tr)  D == 1..Len(tr.conn) \ S IN
  Clause("solid_in_analysis", \A i \in S : Near(e.phys[i], RU, Tol))
  \cup Clause("design_elements_only", SeqSet(e.ids) \cap S = {})
  \cup Clause("all_design_elements", SeqSet(e.ids) \cup S = 1..Len(tr.conn))
  \cup Clause("solid_in_design_field", \A i \in S : Near(e.field[i], RU, Tol))
  \cup (IF st.q # <<>>
        THEN Clause("field_is_last_update", \A i \in D : Near(e.field[i], st.q[i], Tol))
        ELSE Clause("initial_fraction", \A i \in D : Near(e.field[i], Clip(tr.init, tr.lo, tr.hi), Tol)))
  \cup Clause("update_starts_from_field", \A i \in 1..Len(e.ids) : Near(e.field[e.ids[i]], e.before[i], Tol))

(* volume weighted mean of the physical densities of the design elements, times total volume *)
RECURSIVE Dot(_, _, _, _)
Dot(ids, w, q, i) == IF i = 0 THEN 0 ELSE w[ids[i]] * q[ids[i]] + Dot(ids, w, q, i - 1)
RECURSIVE Wsum(_, _, _)
Wsum(ids, w, i) == IF i = 0 THEN 0 ELSE w[ids[i]] + Wsum(ids, w, i - 1)
VolErr(tr, e, q, t) ==
  LET n == Len(e.ids)  W == Wsum(e.ids, tr.vol, n) IN Dot(e.ids, tr.vol, q, n) - t * W
C09(tr, st, e) ==
  LET n == Len(e.ids)
      W == Wsum(e.ids, tr.vol, n)
      ts == {InRU(b) : b \in ValsRU(tr.sched.vol_frac, e.k, st.M)}
      mv == {InRU(b) : b \in ValsRU(tr.sched.move_limit, e.k, st.M)}
      Low(i, m) == \/ e.after[i] <= Lower(e.before[i], m, tr.lo) + 5
                   \/ 1000 * e.after[i] <= e.before[i] * tr.smin1000 + 5000
      High(i, m) == \/ e.after[i] >= Upper(e.before[i], m, tr.hi) - 5
                    \/ 1000 * e.after[i] >= e.before[i] * tr.smax1000 - 5000
      Met(t) == Abs(VolErr(tr, e, e.physafter, t)) <= tr.voltol * W
      SatLow(t, m) == VolErr(tr, e, e.physafter, t) > 0 /\ \A i \in 1..n : Low(i, m)
      SatHigh(t, m) == VolErr(tr, e, e.physafter, t) < 0 /\
                       \A i \in 1..n : High(i, m) \/ e.sens[i] <= tr.weak
  IN IF tr.rule = "oc"
     THEN Clause("volume_target", \E t \in ts : Met(t) \/ \E m \in mv : SatLow(t, m) \/ SatHigh(t, m))
          \cup Clause("reported_volume_error", \E t \in ts :
                 Abs(VolErr(tr, e, e.physafter, t) - e.volerr * W) <= 4 * W)
     ELSE LET first == e.k = 1
              want == Clip(Dual(tr.rule, first, st.lam, e.volerr, tr.mu10, tr.decay100), tr.dlo, tr.dhi) IN
          Clause("reported_volume_error", \E t \in ts :
                 Abs(VolErr(tr, e, e.phys, t) - e.volerr * W) <= 4 * W)
          \cup Clause("multiplier_bounds", e.lam >= tr.dlo - Tol /\ e.lam <= tr.dhi + Tol)
          \cup (IF st.known \/ first
                THEN Clause("multiplier_law", Abs(e.lam - want) <= 12 * Mx(1, tr.mu10 \div 10) + Abs(want) \div 100000)
                ELSE {})
          \cup Clause("constraint_coefficient",
                 Abs(e.coeff - e.lam - (tr.aug10 * e.volerr) \div 10) <= 12 * Mx(1, tr.aug10 \div 10))

(* ---- C23: the update laws. Logarithms are scaled by 10^4. ---- *)
OcLaw(tr, e) ==
  LET D == 1..Len(e.before)
      UpL(i) == e.after[i] >= Upper(e.before[i], e.mv, tr.hi) - Tol
                \/ 1000 * e.after[i] >= e.before[i] * tr.smax1000 - 1000 * Tol
      LoL(i) == e.after[i] <= Lower(e.before[i], e.mv, tr.lo) + Tol
                \/ 1000 * e.after[i] <= e.before[i] * tr.smin1000 + 1000 * Tol
      Pos == {i \in D : e.ls[i] # NAN}
      (* eta * log(multiplier): equal to W for a free element, at least W for one at its lower
         limit, at most W for one at its upper limit *)
      W(i) == e.eta1000 * e.ls[i] - 1000 * e.lg[i]
      AtLeast == {W(i) : i \in {j \in Pos : ~UpL(j)}}
      AtMost == {W(i) : i \in {j \in Pos : ~LoL(j)}}
  IN Clause("no_benefit_shrinks", \A i \in D \ Pos : LoL(i))
     \cup Clause("one_multiplier_for_all", AtLeast = {} \/ AtMost = {} \/ SetMax(AtLeast) <= SetMin(AtMost) + 5000)

(* scaled derivative of the Lagrangian, 10^4: fa, fb, fm are the (filtered, if so configured) objective
   sensitivity, constraint term and volume weighted mean of the raw sensitivity; mfa .. their means *)
Lagrangian(tr, e) ==
  LET m(x) == IF tr.centerobj THEN x ELSE 0
      mg == IF tr.centerlag THEN e.mfa + e.mfb - m(e.mfm) ELSE 0
  IN [i \in 1..Len(e.fa) |-> e.fa[i] + e.fb[i] - m(e.fm[i]) - mg]
LogLaw(tr, st, e) ==
  LET D == 1..Len(e.before)
      g == Lagrangian(tr, e)
      Wish(i) == -((e.eta1000 * Clip(g[i], -tr.clip, tr.clip)) \div 1000)
      q4(x) == x \div 100
      UpL(i) == e.after[i] >= Upper(e.before[i], e.mv, tr.hi) - 2 * Tol
      Low4(i) == q4(e.after[i]) * (q4(e.before[i]) + q4(e.mv)) - q4(e.before[i]) * q4(e.before[i])
      LoL(i) == e.after[i] <= tr.lo + Tol \/ Low4(i) <= 4 * (q4(e.before[i]) + 1) + 2 * q4(e.mv)
      tol(i) == 6 + Abs(Wish(i)) \div 500
  IN Clause("log_move_limit", \A i \in D : Low4(i) >= -(4 * (q4(e.before[i]) + 1) + 2 * q4(e.mv)))
     \cup Clause("log_step", \A i \in D :
            /\ UpL(i) \/ e.lg[i] >= Wish(i) - tol(i)
            /\ LoL(i) \/ e.lg[i] <= Wish(i) + tol(i))
     \cup Clause("running_scale",
            IF e.prevscale = 0 THEN Near(e.scale, e.pct, 2000)
            ELSE Abs(10 * e.scale - 2 * e.prevscale - 8 * e.pct) <= 20000)
     \cup Clause("volume_chain", Abs(e.chaindev) <= 1000)
C23(tr, st, e) ==
  IF (\E i \in 1..Len(e.before) : ~Fin(e.after[i]) \/ ~Fin(e.before[i])) THEN {"finite"}
  ELSE IF tr.rule = "oc" THEN OcLaw(tr, e)
  ELSE IF ~Fin(e.scale) \/ \E i \in 1..Len(e.fa) : ~Fin(e.fa[i]) \/ ~Fin(e.fb[i]) THEN {"finite"}
  ELSE LogLaw(tr, st, e)

(* ---- C24: recorded quantities. e.rec: sequence of [name, arr, min, mean, max, std]: arr is the
   quantity of this iteration and min.. what was recorded (10^6 over the largest magnitude, std 10^3);
   e.kkt: recorded residual; e.kx + e.ky: the two terms of the derivative of the Lagrangian; e.vtu:
   largest relative difference between the result mesh and the densities analysed, -1: no file ---- *)
RECURSIVE SqDev(_, _, _)
SqDev(q, m, i) == IF i = 0 THEN 0 ELSE LET d == (q[i] - m) \div 1000 IN d * d + SqDev(q, m, i - 1)
Stat(r) ==
  LET n == Len(r.arr)  V == SeqSet(r.arr) IN
  IF ~Fin(r.min) \/ ~Fin(r.mean) \/ ~Fin(r.max) \/ \E v \in V : ~Fin(v) THEN {r.name \o "_finite"}
  ELSE Clause(r.name, Near(r.min, SetMin(V), 3) /\ Near(r.max, SetMax(V), 3)
                      /\ Abs(r.mean - SumTo(r.arr, n) \div n) <= 3
                      /\ (r.std # -1 => Abs(r.std * r.std * n - SqDev(r.arr, r.mean, n)) <= 4 * n * (r.std + 1)))
C24(tr, st, e) ==
  LET D == 1..Len(e.before)
      x == IF tr.rule = "oc" THEN e.after ELSE e.before
      Sure == {i \in D : x[i] > tr.lo + 4 /\ x[i] < tr.hi - 4}
      Maybe == {i \in D : x[i] > tr.lo /\ x[i] < tr.hi}
      R(i) == Abs(IF tr.rule = "oc" THEN e.kx[i] + e.ky[i] ELSE Lagrangian(tr, e)[i])
      tolk == IF tr.rule = "oc" THEN 20 ELSE 10 + Abs(e.kkt) \div 200
  IN UNION {Stat(e.rec[j]) : j \in 1..Len(e.rec)}
     \cup Clause("density_change", SetMax({0} \cup {Abs(e.after[i] - e.before[i]) : i \in D}) - e.change \in -3..3)
     \cup Clause("stationarity_residual",
            \/ tr.rule = "oc" /\ e.kx = <<>>
            \/ /\ Fin(e.kkt)
               /\ (Sure # {} => e.kkt >= SetMax({R(i) : i \in Sure}) - tolk)
               /\ e.kkt <= SetMax({0} \cup {R(i) : i \in Maybe}) + tolk)
     \cup Clause("one_entry_per_series", e.complete)
     \cup Clause("result_mesh", e.vtu <= 10)
     \cup Clause("result_mesh_written", e.vtu = -1 =>
             ~(e.k = 1 \/ e.last \/ e.k % Mx(1, st.M \div 3) = 0))
     \cup (IF tr.rule = "oc" THEN
           Clause("scaling_rate", e.srmin >= tr.smin1000 - 1 /\ e.srmax <= tr.smax1000 + 1) ELSE {})

Names == <<"p", "beta", "vol_frac", "move_limit", "eta", "percentile", "filter_radius", "neumann_scale">>
C11(tr, st, e) ==
  UNION {LET o == e.obs[j] IN
         Clause(o.where \o "_" \o o.name, SchedOk(tr.sched[o.name], e.k, st.M, o)) : j \in 1..Len(e.obs)}
  \cup Clause("every_parameter_observed",
         {Names[j] : j \in 1..Len(Names)} \subseteq {e.obs[j].name : j \in 1..Len(e.obs)})
  \cup Clause("filter_in_effect", e.filterdev <= 10)
  \cup Clause("analysis_in_effect", e.objdev <= 100)
  \cup Clause("iteration_number", e.k = st.next)

Viol(tr, st, e) ==
  IF e.op = "restart" THEN {}
  ELSE IF e.op = "error" THEN {"run_failed"}
  ELSE CASE tr.prop = "C07" -> C07(tr, st, e) [] tr.prop = "C08" -> C08(tr, st, e)
         [] tr.prop = "C09" -> C09(tr, st, e) [] tr.prop = "C23" -> C23(tr, st, e)
         [] tr.prop = "C24" -> C24(tr, st, e) [] tr.prop = "C11" -> C11(tr, st, e)
Updated(tr, e) == [i \in 1..Len(tr.conn) |->
  IF \E j \in 1..Len(e.ids) : e.ids[j] = i
  THEN e.after[CHOOSE j \in 1..Len(e.ids) : e.ids[j] = i] ELSE e.field[i]]
Apply(tr, st, e) ==
  IF e.op = "restart"
  THEN [st EXCEPT !.known = FALSE, !.lam = 0, !.next = e.k, !.M = e.M,
                  !.qs = SubSeq(@, 1, e.k - 1), !.q = IF st.qs = <<>> THEN <<>> ELSE st.qs[e.k - 1]]
  ELSE LET q == IF tr.prop = "C08" THEN Updated(tr, e) ELSE <<>> IN
       [st EXCEPT !.next = e.k + 1, !.lam = e.lam, !.known = TRUE, !.q = q, !.qs = Append(@, q)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = Start(Traces[tid])
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Apply(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
