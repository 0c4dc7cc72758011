------------------------------ MODULE Transfer ------------------------------
(* Transfer of data between a coarse mesh level and the next finer one
   (smr.c; property C10), in integer arithmetic.  A coarse zone corresponds to
   a block of 2 x 2 x 2 fine zones (2 x 2 in two dimensions, 2 in one).

   Restriction: the coarse zone holds the average of its block, a coarse face
   the average of the fine faces on it.

   Prolongation of zone values: a limited slope along each axis (monotonised
   central difference), so that the average of the block is the coarse value
   and linear data are reproduced.

   Prolongation of the face-centred field: fine faces that lie on coarse faces
   are interpolated with limited slopes within the face (unless they are on
   the edge of the finer mesh, where they are its own faces), and the faces in
   the interior of the block are those of Toth and Roe (2002), so that the
   divergence of each fine zone is that of the coarse zone.

   Coarse values are integers in some unit; results are in units of 1/8. *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* nearest integer to a/b, b > 0
Rnd(a, b) == (2*a + b) \div (2*b)
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Sum(f) == SumF(f, DOMAIN f)

\* twice the limited difference across a zone with value c between l and r
Slope2(l, c, r, first) ==
  LET a == c - l
      b == r - c
  IN IF first THEN 0
     ELSE IF a > 0 /\ b > 0 THEN Min(4*Min(a, b), a + b)
     ELSE IF a < 0 /\ b < 0 THEN Max(4*Max(a, b), a + b)
     ELSE 0
Sg(b) == 2*b - 1
\* the blocks: indices along an axis, by the number of dimensions
Ax(nd, m) == IF m <= nd THEN {0, 1} ELSE {0}
Cells(nd) == Ax(nd, 3) \X Ax(nd, 2) \X Ax(nd, 1)        \* <<n, m, l>> along x3, x2, x1

(* 8 times the fine value at <<n,m,l>>; w = <<centre, x1-, x1+, x2-, x2+, x3-, x3+>> *)
ProZone(w, nd, first, z) ==
  8*w[1] + Sg(z[3])*Slope2(w[2], w[1], w[3], first)
         + (IF nd > 1 THEN Sg(z[2])*Slope2(w[4], w[1], w[5], first) ELSE 0)
         + (IF nd > 2 THEN Sg(z[1])*Slope2(w[6], w[1], w[7], first) ELSE 0)

(* Faces of a block.  b(n,m,l)[a]: coarse field component a on the lower face of
   the zone at offset <<n-1,m-1,l-1>> (n,m,l in 0..2).  own(a, side, n, m, l):
   8 times the fine mesh's own field if the coarse face <<a, side>> is on its edge.
   Outer faces of the block: component 1 at l in {0,2}, etc. *)
ProFace1(b(_,_,_), nd, first, l, n, m) ==                  \* x1-face at l in {0,2}, quarter <<n,m>>
  LET q == 1 + l \div 2
  IN 8*b(1,1,q)[1] + (IF nd > 1 THEN Sg(m)*Slope2(b(1,0,q)[1], b(1,1,q)[1], b(1,2,q)[1], first) ELSE 0)
                   + (IF nd > 2 THEN Sg(n)*Slope2(b(0,1,q)[1], b(1,1,q)[1], b(2,1,q)[1], first) ELSE 0)
ProFace2(b(_,_,_), nd, first, m, n, l) ==
  LET q == 1 + m \div 2
  IN 8*b(1,q,1)[2] + Sg(l)*Slope2(b(1,q,0)[2], b(1,q,1)[2], b(1,q,2)[2], first)
                   + (IF nd > 2 THEN Sg(n)*Slope2(b(0,q,1)[2], b(1,q,1)[2], b(2,q,1)[2], first) ELSE 0)
ProFace3(b(_,_,_), nd, first, n, m, l) ==
  LET q == IF nd > 2 THEN 1 + n \div 2 ELSE 1
  IN 8*b(q,1,1)[3] + Sg(l)*Slope2(b(q,1,0)[3], b(q,1,1)[3], b(q,1,2)[3], first)
                   + Sg(m)*Slope2(b(q,0,1)[3], b(q,1,1)[3], b(q,2,1)[3], first)

(* Interior faces of a block with outer faces p1[<<n,m,l>>] (l in {0,2}), p2[<<n,m,l>>] (m in {0,2}), p3[<<n,m,l>>]
   (n in {0,2}); zone sizes u[1..3] (small integers).  All three-dimensional: a two-dimensional block is one whose layers
   n = 0, 1 are equal. *)
B01 == {0, 1}
Inter(p1, p2, p3, u) ==
  LET S(T, g(_,_)) == Sum([t \in T |-> g(t[1], t[2])])
      Q == B01 \X B01                                     \* <<j, i>>
      \* second differences
      xy == S(Q, LAMBDA j, i : Sg(i)*Sg(j)*(p2[<<0,2*j,i>>] + p2[<<1,2*j,i>>]))
      xz == S(Q, LAMBDA j, i : Sg(i)*(p3[<<2,j,i>>] - p3[<<0,j,i>>]))
      yz == S(Q, LAMBDA j, i : Sg(j)*(p3[<<2,j,i>>] - p3[<<0,j,i>>]))
      yx == S(Q, LAMBDA j, i : Sg(i)*Sg(j)*(p1[<<0,j,2*i>>] + p1[<<1,j,2*i>>]))
      zx == S(Q, LAMBDA j, i : Sg(i)*(p1[<<1,j,2*i>>] - p1[<<0,j,2*i>>]))
      zy == S(Q, LAMBDA j, i : Sg(j)*(p2[<<1,2*j,i>>] - p2[<<0,2*j,i>>]))
      Ux == S(Q, LAMBDA j, i : Sg(i)*Sg(j)*(p1[<<1,j,2*i>>] - p1[<<0,j,2*i>>]))
      Vx == S(Q, LAMBDA j, i : Sg(i)*Sg(j)*(p2[<<1,2*j,i>>] - p2[<<0,2*j,i>>]))
      Wx == S(Q, LAMBDA j, i : Sg(i)*Sg(j)*(p3[<<2,j,i>>] - p3[<<0,j,i>>]))
      D(a, c) == u[a]*u[a] + u[c]*u[c]
      Half(a, c) == Rnd(a + c, 2)
  IN [x1 |-> [z \in B01 \X B01 |->                        \* <<n, m>>
               Half(p1[<<z[1],z[2],0>>], p1[<<z[1],z[2],2>>])
               + Rnd(u[1]*xy, 8*u[2]) + Rnd(u[1]*xz, 8*u[3])
               + Sg(z[1])*Rnd(u[3]*u[3]*u[1]*Vx, 8*u[2]*D(1,3)) + Sg(z[2])*Rnd(u[2]*u[2]*u[1]*Wx, 8*u[3]*D(1,2))],
      x2 |-> [z \in B01 \X B01 |->                        \* <<n, l>>
               Half(p2[<<z[1],0,z[2]>>], p2[<<z[1],2,z[2]>>])
               + Rnd(u[2]*yz, 8*u[3]) + Rnd(u[2]*yx, 8*u[1])
               + Sg(z[2])*Rnd(u[1]*u[1]*u[2]*Wx, 8*u[3]*D(1,2)) + Sg(z[1])*Rnd(u[3]*u[3]*u[2]*Ux, 8*u[1]*D(2,3))],
      x3 |-> [z \in B01 \X B01 |->                        \* <<m, l>>
               Half(p3[<<0,z[1],z[2]>>], p3[<<2,z[1],z[2]>>])
               + Rnd(u[3]*zx, 8*u[1]) + Rnd(u[3]*zy, 8*u[2])
               + Sg(z[1])*Rnd(u[2]*u[2]*u[3]*Ux, 8*u[1]*D(2,3)) + Sg(z[2])*Rnd(u[1]*u[1]*u[3]*Vx, 8*u[2]*D(1,3))]]
=============================================================================
