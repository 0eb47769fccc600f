----------------------------- MODULE DomainTrace -----------------------------
(* Validation of recorded constructions and exports of real analysis domains. Elements, nodes
   and dofs are numbered from 1; loads are scaled by 10^6, coefficients by 10.           *)
EXTENDS TraceBase, DomainCore
VARIABLES tid, l, s
RU == 1000000

Conn(tr) == [e \in 1..Len(tr.conn) |-> Elems(tr.conn[e])]
Sup(tr) == RegionNodes(tr.sup)
Load(tr) == RegionNodes(tr.load)
Conv(tr) == RegionNodes(tr.conv)
Design0(tr) == DesignOf(Conn(tr), Elems(tr.request), Load(tr), Conv(tr), tr.dconv)
All(tr) == 1..Len(tr.conn)
NoDup(q) == Cardinality(Elems(q)) = Len(q)

(* ---- C12: sets ---- *)
Sets(tr, e, design) ==
  LET conn == Conn(tr)  con == ConstrainedDofs(tr.sup, tr.dirs, tr.nd)
      free == AllDofs(tr.nd) \ con IN
  Clause("constrained_nodes", Elems(e.dnodes) = Sup(tr))
  \cup Clause("constrained_dofs", Elems(e.ddofs) = con)
  \cup Clause("constrained_elements", Elems(e.delems) = Touch(conn, Sup(tr)))
  \cup Clause("loaded_nodes", Elems(e.nnodes) = Load(tr))
  \cup Clause("loaded_elements", Elems(e.nelems) = Touch(conn, Load(tr)))
  \cup Clause("convective_nodes", Elems(e.rnodes) = Conv(tr))
  \cup Clause("convective_elements", Elems(e.relems) = Touch(conn, Conv(tr)))
  \cup Clause("design_elements", Elems(e.design) = design)
  \cup Clause("design_without_duplicates", NoDup(e.design))
  \cup Clause("fixed_elements", Elems(e.fixed) = All(tr) \ design /\ NoDup(e.fixed))
  \cup Clause("all_elements", Elems(e.all) = All(tr) /\ NoDup(e.all))
  \cup Clause("free_dofs", Elems(e.free) = free /\ NoDup(e.free))
  \cup Clause("free_elements", Elems(e.felems) = FreeElements(conn, tr.nd, con))
  \cup Clause("constrained_or_loaded_elements",
              Elems(e.delnel) = Touch(conn, Sup(tr)) \cup Touch(conn, Load(tr)))
  \cup Clause("design_mask", Elems(e.mask) = design)

(* ---- C13: loads and convection ---- *)
LoadOk(tr, i, F) ==
  LET reg == tr.load[i]  ar == tr.loadarea[i]  n == Len(reg)  A == AreaSum(ar, n)
      v == tr.vals[i]  dir == tr.ldirs[i] IN
  Clause("load_elsewhere", \A x \in 1..Len(tr.nd) : \A k \in 1..Len(tr.nd[x]) :
      k # dir \/ x \notin FacetNodes(reg) => Near(F[tr.nd[x][k]], 0, 2))
  \cup Clause("load_by_area", \A x \in FacetNodes(reg) :
      Abs(F[tr.nd[x][dir]] * tr.npf * A - v * AreaAt(reg, ar, x, n)) <= 3 * tr.npf * A)
RECURSIVE ClaimedSum(_, _)
ClaimedSum(F, i) == IF i = 0 THEN 0 ELSE F[i] + ClaimedSum(F, i - 1)
Loads(tr, e) ==
  IF Len(e.F) # Len(tr.load) \/ e.ntasks # Len(tr.load) THEN {"one_case_per_region"}
  ELSE UNION {LoadOk(tr, i, e.F[i]) : i \in 1..Len(tr.load)}
       \cup Clause("total_force", \A i \in 1..Len(e.F) :
              Near(ClaimedSum(e.F[i], Len(e.F[i])), tr.vals[i], Len(e.F[i])))
ConvOk(tr, i, B, L) ==
  LET reg == tr.conv[i]  ar == tr.convarea[i]  n == Len(reg)  N == FacetNodes(reg)
      h == tr.h[i]  ht == tr.h[i] * tr.tenv[i]
      E(p, q) == AreaOf2(reg, ar, p, q, n) * Share36(tr.npf, tr.xyz[p], tr.xyz[q]) IN
  Clause("convection_vector", \A x \in 1..Len(tr.nd) :
      Abs(L[x] * tr.npf * tr.uden - ht * 10000 * AreaAt(reg, ar, x, n)) <= 3 * tr.npf * tr.uden)
  \cup Clause("convection_matrix", \A j \in 1..Len(B) :
      LET p == B[j][1]  q == B[j][2] IN
      Abs(B[j][3] * 36 * tr.uden - h * 100000 * E(p, q)) <= 108 * tr.uden)
  \cup Clause("convection_matrix_pattern",
      {<<p, q>> \in N \X N : E(p, q) > 0} = {<<B[j][1], B[j][2]>> : j \in 1..Len(B)})
Convs(tr, e) ==
  IF Len(e.B) # Len(tr.conv) \/ Len(e.L) # Len(tr.conv) THEN {"one_convection_term_per_region"}
  ELSE UNION {ConvOk(tr, i, e.B[i], e.L[i]) : i \in 1..Len(tr.conv)}
FluxOk(tr, i, F) ==
  LET reg == tr.flux[i]  ar == tr.fluxarea[i]  n == Len(reg) IN
  Clause("heat_flux", \A x \in 1..Len(tr.nd) :
      Abs(F[x] * tr.npf * tr.uden - tr.vals[i] * AreaAt(reg, ar, x, n)) <= 3 * tr.npf * tr.uden)
Fluxes(tr, e) == IF Len(e.F) # Len(tr.flux) THEN {"one_flux_per_region"}
                 ELSE UNION {FluxOk(tr, i, e.F[i]) : i \in 1..Len(tr.flux)}

(* ---- C20: exported geometry and labels ---- *)
HexEdges == {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>, <<5, 6>>, <<6, 7>>, <<7, 8>>, <<8, 5>>,
             <<1, 5>>, <<2, 6>>, <<3, 7>>, <<4, 8>>}
CellOk(tr, cell) ==
  IF Len(cell) # Len(tr.conn[1]) \/ 0 \in Elems(cell) THEN FALSE
  ELSE Len(cell) = 4 \/ \A ed \in HexEdges : NDiff(tr.xyz[cell[ed[1]]], tr.xyz[cell[ed[2]]]) = 1
CellsAre(tr, cells, set) ==
  Clause("cells_have_valid_geometry", \A i \in 1..Len(cells) : CellOk(tr, cells[i]))
  \cup Clause("cells_are_those_elements",
        /\ Len(cells) = Cardinality(set)
        /\ {Elems(cells[i]) : i \in 1..Len(cells)} = {Elems(tr.conn[x]) : x \in set})
InOrder(tr, cells) == Clause("cells_in_order",
   Len(cells) = Len(tr.conn) /\ \A i \in 1..Len(cells) : Elems(cells[i]) = Elems(tr.conn[i]))
Cond(tr, e, design) ==
  LET free == FreeElements(Conn(tr), tr.nd, ConstrainedDofs(tr.sup, tr.dirs, tr.nd)) IN
  CellsAre(tr, e.cells, All(tr)) \cup InOrder(tr, e.cells)
  \cup Clause("points_unchanged", e.points = [n \in 1..Len(tr.nd) |-> n])
  \cup Clause("node_labels", Len(e.nlabel) = Len(tr.nd) /\ \A n \in 1..Len(tr.nd) :
        e.nlabel[n] = NodeLabel(n, Load(tr), Sup(tr), Conv(tr)))
  \cup Clause("element_labels", Len(e.elabel) = Len(tr.conn) /\ \A x \in All(tr) :
        e.elabel[x] = ElementLabel(x, design, All(tr) \ design, free))
  \cup Clause("export_changes_nothing", ~e.changed)
Shape(tr, e, design) ==
  LET kept == ShapeOf(All(tr), design, e.rho, e.thr) IN
  (IF kept = {} THEN Clause("no_shape", e.none)
   ELSE IF e.none THEN {"shape_missing"}
   ELSE CellsAre(tr, e.cells, kept)
        \cup Clause("used_points_only",
              Elems(e.points) = UNION {Elems(tr.conn[x]) : x \in kept} /\ NoDup(e.points)))
  \cup Clause("export_changes_nothing", ~e.changed)
Fields(tr, e) ==
  CellsAre(tr, e.cells, All(tr)) \cup InOrder(tr, e.cells)
  \cup Clause("points_unchanged", e.points = [n \in 1..Len(tr.nd) |-> n])
  \cup Clause("cell_values", e.got = e.want)
  \cup Clause("point_values", e.gotp = e.wantp)

(* ---- history ---- *)
Viol(tr, st, e) ==
  CASE e.op = "raised" -> Clause("valid_problem_rejected",
                            tr.bad # "none" \/ (e.at = "build" /\ Design0(tr) = {}))
    [] e.op = "built" ->
         Clause("malformed_problem_accepted", tr.bad = "none")
         \cup Clause("empty_design_accepted", Design0(tr) # {})
         \cup (IF tr.prop # "C12" \/ tr.bad # "none" THEN {} ELSE Sets(tr, e, Design0(tr)))
    [] e.op = "loads" -> IF tr.prop = "C13" THEN Loads(tr, e) ELSE {}
    [] e.op = "convs" -> IF tr.prop = "C13" THEN Convs(tr, e) ELSE {}
    [] e.op = "flux" -> IF tr.prop = "C13" THEN Fluxes(tr, e) ELSE {}
    [] e.op = "exclude" ->
         IF tr.prop = "C12" THEN Sets(tr, e, st.design \ Touch(Conn(tr), Sup(tr))) ELSE {}
    [] e.op = "cond" -> IF tr.prop = "C20" THEN Cond(tr, e, st.design) ELSE {}
    [] e.op = "shape" -> IF tr.prop = "C20" THEN Shape(tr, e, st.design) ELSE {}
    [] e.op = "fields" -> IF tr.prop = "C20" THEN Fields(tr, e) ELSE {}
    [] OTHER -> {"unknown_event"}
Apply(tr, st, e) ==
  CASE e.op = "built" -> [design |-> Design0(tr)]
    [] e.op = "exclude" -> [design |-> st.design \ Touch(Conn(tr), Sup(tr))]
    [] OTHER -> st

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = [design |-> {}]
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = Apply(tr, s, e)
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
=============================================================================
