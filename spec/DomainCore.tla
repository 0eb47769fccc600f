------------------------------ MODULE DomainCore ------------------------------
(* Roles of nodes, degrees of freedom and elements in an analysis domain, and the loads and
   convection terms its regions stand for.
   conn: element -> set of nodes.  A region is a sequence of facets, a facet a sequence of
   nodes. "absent" conditions are the empty sequence of regions.                        *)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[i] : i \in 1..Len(q)}
FacetNodes(reg) == UNION {Elems(reg[i]) : i \in 1..Len(reg)}
RegionNodes(regs) == UNION {FacetNodes(regs[i]) : i \in 1..Len(regs)}
Touch(conn, nodes) == {e \in DOMAIN conn : conn[e] \cap nodes # {}}

(* design elements after construction *)
DesignOf(conn, request, loaded, convective, dconv) ==
  (request \ Touch(conn, loaded)) \ (IF dconv THEN {} ELSE Touch(conn, convective))

(* constrained degrees of freedom: nd[n] are the dofs of node n, dirs[i] = 0 for all *)
RegionDofs(nodes, dir, nd) ==
  UNION {IF dir = 0 THEN Elems(nd[n]) ELSE {nd[n][dir]} : n \in nodes}
ConstrainedDofs(regs, dirs, nd) ==
  UNION {RegionDofs(FacetNodes(regs[i]), dirs[i], nd) : i \in 1..Len(regs)}
AllDofs(nd) == UNION {Elems(nd[n]) : n \in DOMAIN nd}
FreeElements(conn, nd, fixedDofs) ==
  {e \in DOMAIN conn : \E n \in conn[e] : \E k \in 1..Len(nd[n]) : nd[n][k] \notin fixedDofs}

(* labels of the exported analysis conditions *)
NodeLabel(n, loaded, constrained, convective) ==
  IF n \in convective THEN 3 ELSE IF n \in constrained THEN 2 ELSE IF n \in loaded THEN 1 ELSE 0
ElementLabel(e, design, fixed, free) ==
  IF e \in design THEN 3 ELSE IF e \in fixed THEN 2 ELSE IF e \in free THEN 1 ELSE 0

(* final shape: everything but the design elements at or below the threshold *)
ShapeOf(elements, design, rho, threshold) == {e \in elements : e \in design => rho[e] > threshold}

(* area (integer units) of the facets of a region around node n, and of the whole region *)
RECURSIVE AreaAt(_, _, _, _)
AreaAt(reg, area, n, i) ==
  IF i = 0 THEN 0 ELSE (IF n \in Elems(reg[i]) THEN area[i] ELSE 0) + AreaAt(reg, area, n, i - 1)
RECURSIVE AreaSum(_, _)
AreaSum(area, i) == IF i = 0 THEN 0 ELSE area[i] + AreaSum(area, i - 1)
(* area of the facets of a region that contain both n and m *)
RECURSIVE AreaOf2(_, _, _, _, _)
AreaOf2(reg, area, n, m, i) ==
  IF i = 0 THEN 0
  ELSE (IF {n, m} \subseteq Elems(reg[i]) THEN area[i] ELSE 0) + AreaOf2(reg, area, n, m, i - 1)

(* 36 times the share of a facet's area in the boundary mass matrix of two of its nodes:
   bilinear rectangle 1/9, 1/18, 1/36 (same node, along an edge, across); triangle 1/6, 1/12 *)
NDiff(p, q) == Cardinality({k \in 1..3 : p[k] # q[k]})
Share36(npf, p, q) ==
  IF npf = 3 THEN (IF p = q THEN 6 ELSE 3)
  ELSE IF p = q THEN 4 ELSE IF NDiff(p, q) = 1 THEN 2 ELSE 1
=============================================================================
