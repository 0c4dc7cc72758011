-------------------------------- MODULE BVals --------------------------------
(* What ghost zones hold (bvals_mhd.c).  Property C08.

   Boundary codes: 1 reflecting, 2 outflow, 4 periodic, 5 conducting,
   9 user function (fills ghost zones with the constant User).
   A Domain has n[m] zones along direction m, b[2m-1], b[2m] the conditions on
   its left and right side.  Zones are numbered from 0, faces too (face i is
   the left face of zone i, so the last active face is n).                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NG
User == 777
Dim == 1..3
\* zone that ghost zone g stands for
CellSrc(n, bl, br, g) ==
  IF g < 0 THEN CASE bl = 4 -> g + n [] bl = 2 -> 0 [] bl \in {1, 5} -> -1 - g [] OTHER -> 0
  ELSE IF g >= n THEN CASE br = 4 -> g - n [] br = 2 -> n - 1 [] br \in {1, 5} -> 2*n - 1 - g [] OTHER -> 0
  ELSE g
\* face that ghost face g of the normal field stands for
FaceSrc(n, bl, br, g) ==
  IF g < 0 THEN CASE bl = 4 -> g + n [] bl = 2 -> 0 [] bl \in {1, 5} -> -g [] OTHER -> 0
  ELSE IF g > n THEN CASE br = 4 -> g - n [] br = 2 -> n [] br \in {1, 5} -> 2*n - g [] OTHER -> 0
  ELSE g
\* boundary condition through which index g goes (0: none); the faces on a wall belong to nobody's ghost zones
CellBc(n, bl, br, g) == IF g < 0 THEN bl ELSE IF g >= n THEN br ELSE 0
FaceBc(n, bl, br, g) == IF g < 0 THEN bl ELSE IF g > n THEN br ELSE 0
\* variables: [k |-> "s"] scalar-like (density, energy, passive scalars); [k |-> "m", c] momentum; [k |-> "b", c] cell field; [k |-> "f", c] face field
Flip(v, m, bc) == \/ v.k = "m" /\ v.c = m /\ bc \in {1, 5}
                  \/ v.k \in {"b", "f"} /\ v.c = m /\ bc = 1
                  \/ v.k \in {"b", "f"} /\ v.c # m /\ bc = 5
IsFace(v, m) == v.k = "f" /\ v.c = m
BcAt(v, n, b, m, g) == IF IsFace(v, m) THEN FaceBc(n[m], b[2*m-1], b[2*m], g) ELSE CellBc(n[m], b[2*m-1], b[2*m], g)
SrcAt(v, n, b, m, g) == IF IsFace(v, m) THEN FaceSrc(n[m], b[2*m-1], b[2*m], g) ELSE CellSrc(n[m], b[2*m-1], b[2*m], g)
\* walls: the normal face field vanishes on a reflecting wall
OnWall(v, n, b, m, g) == IsFace(v, m) /\ n[m] > 1 /\ ((g = 0 /\ b[2*m-1] = 1) \/ (g = n[m] /\ b[2*m] = 1))
Sign(v, n, b, p, D) == LET f == {m \in D : Flip(v, m, BcAt(v, n, b, m, p[m]))} IN IF Cardinality(f) % 2 = 0 THEN 1 ELSE -1
\* what variable v holds at position p (indices may lie in the ghost zones), Val(q) being its value at an active position q.
\* Directions are filled in the order 1, 2, 3, each over the full extent of the earlier ones.
Holds(v, n, b, p, Val(_)) ==
  LET um == {m \in Dim : BcAt(v, n, b, m, p[m]) = 9}
      last == CHOOSE m \in um : \A k \in um : k <= m
      src == <<SrcAt(v, n, b, 1, p[1]), SrcAt(v, n, b, 2, p[2]), SrcAt(v, n, b, 3, p[3])>>
      wall == {m \in Dim \ um : OnWall(v, n, b, m, src[m])}
      lastw == CHOOSE m \in wall : \A k \in wall : k <= m
  IN IF um # {} /\ (wall = {} \/ last > lastw) THEN User * Sign(v, n, b, p, {m \in Dim : m > last})
     ELSE IF wall # {} THEN 0
     ELSE Sign(v, n, b, p, Dim) * Val(src)
\* positions the boundary code does not define: the outermost left ghost face of the normal field
Undefined(v, n, m, g) == IsFace(v, m) /\ n[m] > 1 /\ g = -NG
=============================================================================
