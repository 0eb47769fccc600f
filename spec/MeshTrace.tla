------------------------------- MODULE MeshTrace -------------------------------
(* Validation of recorded calls of the mesh utilities. p: points on the lattice, t: elements as
   sequences of node numbers (from 1); volumes are six times the volume, in thousandths.     *)
EXTENDS TraceBase, MeshCore
VARIABLES tid, l, s
El(p, el) == [i \in 1..Len(el) |-> p[el[i]]]
Six(e, kind) == IF kind = "tet" THEN Abs1(Tet6(e)) ELSE Hex6(e)
Sum(q) == SumTo(q, Len(q))
Box6(b) == 6 * b[1] * b[2] * b[3]
FixOk(kind, p, a, b) ==          \* one element before and after the repair
  LET x == El(p, a)  y == El(p, b) IN
    /\ Range(a) = Range(b)
    /\ IF kind = "tet" THEN Tet6(y) > 0 /\ (Tet6(x) > 0 => a = b)
       ELSE Right(y) /\ HexEdges(x) = HexEdges(y) /\ (HexOrient(x) > 0 => a = b)
Viol(tr, st, e) ==
  CASE e.op = "volumes" ->
         Clause("one_volume_per_element", Len(e.vol) = Len(tr.t))
         \cup Clause("element_volume", Len(e.vol) = Len(tr.t) /\
                \A i \in 1..Len(tr.t) : Near(e.vol[i], 1000 * Six(El(tr.p, tr.t[i]), tr.kind), 1))
         \cup Clause("total_volume", Near(Sum(e.vol), 1000 * Hex6(tr.domain), 1 + Len(e.vol)))
         \cup Clause("mesh_unchanged", e.unchanged)
    [] e.op = "orient" ->
         Clause("repaired", Len(e.t) = Len(e.before) /\ \A i \in 1..Len(e.t) : FixOk(tr.kind, tr.p, e.before[i], e.t[i]))
         \cup Clause("input_unchanged", e.unchanged)
         \cup Clause("idempotent", e.again = e.t)
    [] e.op = "matrix" ->
         LET want == IF e.by = "face" THEN FacePairs(tr.t) ELSE Pairs(tr.t) IN
         Clause("neighbours", {<<e.pairs[i][1], e.pairs[i][2]>> : i \in 1..Len(e.pairs)} = want)
         \cup Clause("once", Len(e.pairs) = Cardinality(want))
         \cup Clause("ones", e.one)
    [] e.op = "around" ->
         Clause("neighbours_of_set", SeqSet(e.got) = Around(tr.t, SeqSet(e.of)) /\ Len(e.got) = Cardinality(SeqSet(e.got)))
         \cup Clause("sorted", \A i \in 1..Len(e.got) - 1 : e.got[i] < e.got[i + 1])
    [] e.op = "bynodes" ->
         Clause("elements_of_nodes", SeqSet(e.got) = With(tr.t, SeqSet(e.of)) /\ Len(e.got) = Cardinality(SeqSet(e.got)))
    [] e.op = "box" ->
         \* lengths in millionths of the requested spacing; levels: node coordinates along each axis
         \* hexahedra use the fewest levels, tetrahedra a power of two of intervals
         Clause("fills_the_box", \A k \in 1..3 : e.levels[k][1] = 0 /\ Near(e.levels[k][Len(e.levels[k])], e.len[k], 2))
         \cup Clause("spacing", \A k \in 1..3 : \A i \in 1..Len(e.levels[k]) - 1 :
                e.levels[k][i + 1] - e.levels[k][i] \in 1..(1000000 + 2))
         \cup Clause("uniform", \A k \in 1..3 : \A i \in 1..Len(e.levels[k]) - 1 :
                Near((e.levels[k][i + 1] - e.levels[k][i]) * 10, (e.levels[k][2] - e.levels[k][1]) * 10, 30))
         \cup Clause("volume", Near(e.total, 1000000, 2))
         \cup Clause("positive", e.minvol > 0)
         \cup Clause("no_gap_or_overlap", e.inner /\ e.outer)
         \cup Clause("not_finer_than_needed", e.kind = "tet" \/ \A k \in 1..3 :
                (Len(e.levels[k]) - 2) * 1000000 <= e.len[k] + 2)
    [] e.op = "range" ->
         Clause("points_in_range", \A i \in 1..Len(e.pts) : e.got[i] =
                  (\A k \in 1..3 : e.pts[i][k] >= e.lo[k] /\ e.pts[i][k] <= e.hi[k]))
    [] e.op = "load" ->
         Clause("loaded_mesh", e.nodes = Len(tr.p) /\ e.elements = Len(tr.t))
         \cup Clause("loaded_volume", Len(e.vol) = Len(tr.t) /\
                {<<v, Cardinality({i \in 1..Len(tr.t) : 1000 * Six(El(tr.p, tr.t[i]), tr.kind) = v})>> :
                    v \in {1000 * Six(El(tr.p, tr.t[i]), tr.kind) : i \in 1..Len(tr.t)}}
                = {<<v, Cardinality({i \in 1..Len(e.vol) : Near(e.vol[i], v, 1)})>> :
                    v \in {1000 * Six(El(tr.p, tr.t[i]), tr.kind) : i \in 1..Len(tr.t)}})
         \cup Clause("loaded_orientation", e.positive)
         \cup Clause("loaded_dofs", e.dofs = 3 * Len(tr.p))
    [] OTHER -> {"raised"}
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ s = 0
TNext ==
  /\ l < Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]  e == tr.ev[l + 1]  v == Viol(tr, s, e) IN
       IF v = {} THEN l' = l + 1 /\ s' = s
       ELSE /\ PrintT("BAD " \o ToJson([tid |-> tid, step |-> l + 1, clauses |-> v]))
            /\ l' = Len(tr.ev) + 1 /\ s' = s
  /\ UNCHANGED tid
===============================================================================
