------------------------------- MODULE MeshUtil -------------------------------
(* Design: every numbering of the elements of a small lattice goes through the repair; the
   repaired element is right-handed, occupies the same region and is left alone afterwards. *)
EXTENDS MeshCore
CONSTANTS Mode
VARIABLES el, first, done
vars == <<el, first, done>>
Cube == {<<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1}
Tets == {<<a, b, c, d>> : a \in Cube, b \in Cube, c \in Cube, d \in Cube}
(* affine images and frusta of the cube, in every numbering a symmetry of the cube gives *)
Sym == {s \in [1..3 -> (1..3) \X {0, 1}] : Cardinality({s[k][1] : k \in 1..3}) = 3}
Img(s, c) == LET g(k) == IF s[k][2] = 1 THEN 1 - c[s[k][1]] ELSE c[s[k][1]] IN <<g(1), g(2), g(3)>>
Shapes == {"cube", "shear", "frustum", "long"}
Put(sh, c) == CASE sh = "cube" -> c
                [] sh = "shear" -> <<2 * c[1] + c[2], 3 * c[2] + c[3], 2 * c[3]>>
                [] sh = "frustum" -> IF c[3] = 1 THEN <<1 + 2 * c[1], 1 + 2 * c[2], 3>> ELSE <<4 * c[1], 4 * c[2], 0>>
                [] sh = "long" -> <<7 * c[1], c[2], 2 * c[3]>>
Hexes == {[i \in 1..8 |-> Put(sh, Img(s, Cell[i]))] : sh \in Shapes, s \in Sym}
Vol(e) == IF Mode = "tet" THEN Abs1(Tet6(e)) ELSE Hex6(e)
Init == /\ IF Mode = "tet" THEN el \in {e \in Tets : Tet6(e) # 0} ELSE el \in Hexes
        /\ first = el /\ done = 0
Fix == /\ done < 2 /\ done' = done + 1 /\ UNCHANGED first
       /\ el' = IF Mode = "tet" THEN FixTet(el) ELSE FixHex(el)
Next == Fix
Spec == Init /\ [][Next]_vars
RightHanded == done > 0 => IF Mode = "tet" THEN Tet6(el) > 0 ELSE Right(el)
SameRegion == Range(el) = Range(first) /\ (Mode = "hex" => HexEdges(el) = HexEdges(first)) /\ Vol(el) = Vol(first)
ProperUntouched == done > 0 => ((IF Mode = "tet" THEN Tet6(first) ELSE HexOrient(first)) > 0 => el = first)
Idempotent == [][done = 1 => el' = el]_vars
(* volumes: the cube is one hexahedron, six or five tetrahedra *)
C0(i) == Cell[i]
Six == << <<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<2, 4, 5, 6>>, <<3, 4, 5, 7>>, <<4, 5, 6, 7>>, <<5, 6, 7, 8>> >>
RECURSIVE SumOver(_, _)
SumOver(q, i) == IF i = 0 THEN 0 ELSE Abs1(Tet6([k \in 1..4 |-> C0(q[i][k])])) + SumOver(q, i - 1)
ASSUME UnitCube == Hex6([i \in 1..8 |-> Cell[i]]) = 6 /\ SumOver(Six, 6) = 6
ASSUME Frustum == Hex6([i \in 1..8 |-> Put("frustum", Cell[i])]) = 2 * 3 * (16 + 4 + 8)
(* neighbourhoods *)
Line == << <<1, 2>>, <<2, 3>>, <<3, 4>>, <<9, 8>> >>
ASSUME Neighbours == /\ Pairs(Line) = {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>}
                     /\ Around(Line, {2}) = {1, 3} /\ Around(Line, {1, 2}) = {3} /\ Around(Line, {4}) = {}
                     /\ With(Line, {3, 8}) = {2, 3, 4}
===============================================================================
