------------------------------- MODULE MeshCore -------------------------------
(* Geometry on an integer lattice: points are <<x,y,z>>, an element is the tuple of its corner
   points (hexahedra in the node order of scikit-fem: 000 001 010 100 011 101 110 111).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1])
                + a[3] * (b[1] * c[2] - b[2] * c[1])
Abs1(x) == IF x < 0 THEN -x ELSE x
Orient(a, b, c, d) == Det(Sub(b, a), Sub(c, a), Sub(d, a))   \* six times the signed volume

(* ---- tetrahedra *)
Tet6(e) == Orient(e[1], e[2], e[3], e[4])
FixTet(e) == IF Tet6(e) < 0 THEN <<e[1], e[3], e[2], e[4]>> ELSE e

(* ---- hexahedra: cell coordinates of the corners and the number of a corner *)
Cell == << <<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<1,0,0>>, <<0,1,1>>, <<1,0,1>>, <<1,1,0>>, <<1,1,1>> >>
Corner(c) == CHOOSE i \in 1..8 : Cell[i] = c
Toggle(c, k) == [c EXCEPT ![k] = 1 - c[k]]
CellEdges == UNION {{{i, Corner(Toggle(Cell[i], k))} : k \in 1..3} : i \in 1..8}
HexEdges(e) == {{e[i] : i \in q} : q \in CellEdges}
HexOrient(e) == Orient(e[1], e[Corner(<<1,0,0>>)], e[Corner(<<0,1,0>>)], e[Corner(<<0,0,1>>)])
(* orientation at every corner: along the three edges, with the sign of the corner *)
Sgn(c) == IF (c[1] + c[2] + c[3]) % 2 = 0 THEN 1 ELSE -1
CornerOrient(e, i) == Sgn(Cell[i]) * Orient(e[i], e[Corner(Toggle(Cell[i], 1))], e[Corner(Toggle(Cell[i], 2))],
                                            e[Corner(Toggle(Cell[i], 3))])
Right(e) == \A i \in 1..8 : CornerOrient(e, i) > 0
(* volume of a hexahedron with plane faces: pyramids from a corner over the three opposite faces *)
Face(e, k, v) ==   \* the corners of a face, in a cycle
  LET i == IF k = 1 THEN 2 ELSE 1
      j == IF k = 3 THEN 2 ELSE 3
      At(x, y) == e[Corner([d \in 1..3 |-> IF d = k THEN v ELSE IF d = i THEN x ELSE y])] IN
  <<At(0, 0), At(1, 0), At(1, 1), At(0, 1)>>
Pyramid6(p, f) == Abs1(Orient(p, f[1], f[2], f[3])) + Abs1(Orient(p, f[1], f[3], f[4]))
Hex6(e) == Pyramid6(e[1], Face(e, 1, 1)) + Pyramid6(e[1], Face(e, 2, 1)) + Pyramid6(e[1], Face(e, 3, 1))
FixHex(e) == IF HexOrient(e) < 0 THEN <<e[1], e[4], e[3], e[2], e[7], e[6], e[5], e[8]>> ELSE e

(* ---- neighbourhood: t is a sequence of sequences of nodes *)
Range(q) == {q[i] : i \in DOMAIN q}
Touch(t, i, j) == i # j /\ Range(t[i]) \cap Range(t[j]) # {}
Pairs(t) == {<<i, j>> \in (1..Len(t)) \X (1..Len(t)) : Touch(t, i, j)}
FacePairs(t) == {<<i, j>> \in (1..Len(t)) \X (1..Len(t)) : i # j /\ Cardinality(Range(t[i]) \cap Range(t[j])) = 3}
Around(t, S) == {j \in 1..Len(t) : j \notin S /\ \E i \in S : Touch(t, i, j)}
With(t, N) == {i \in 1..Len(t) : Range(t[i]) \cap N # {}}
===============================================================================
