--------------------------- MODULE Trace_Transfer ---------------------------
(* Validates recorded states of refined runs against Transfer.  A record is a
   finer Domain of a run at one moment, with a sample of the coarse zones on
   which it lies or that surround it:
     [id, nd, first, u, mhd, ad, box, phys, blocks]
       box:  <<lo, hi>> per axis, the Domain in zones of the coarser level (hi exclusive)
       phys: <<lower, upper>> per axis: the edge of the Domain is a physical boundary
     block [kind, c, w, z, b, f]
       kind "R": c is covered; w = <<coarse vector>>, in units of 1/2^21
       kind "P": c is not; w = coarse window <<centre, x1-, x1+, ...>>, in units of 1/4096
       z: fine vectors, x1 fastest; b, f: coarse (fine) field on the lower faces of the zones of the 3x3x3 (3x3)
       window around the coarse zone (of the block and beyond), x1 fastest
     vector: density, momenta, [energy without kinetic energy,] [zone field 1..3,] scalars *)
EXTENDS Transfer, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
R == T[s]
nd == R.nd
In(p, m) == p[m] >= R.box[m][1] /\ p[m] < R.box[m][2]
\* the Domain, continued through physical boundaries
InX(p, m) == (p[m] >= R.box[m][1] \/ R.phys[m][1]) /\ (p[m] < R.box[m][2] \/ R.phys[m][2])
Inside(p) == \A m \in 1..nd : In(p, m)
InsideX(p) == \A m \in 1..nd : InX(p, m)
Shift(p, m, d) == [p EXCEPT ![m] = @ + d]
iE == IF R.ad THEN {5} ELSE {}
oB == IF R.ad THEN 5 ELSE 4                        \* zone field components are oB+1..oB+3
iB == IF R.mhd THEN {oB + 1, oB + 2, oB + 3} ELSE {}
Near(a, b, tol) == Abs(a - b) <= tol
ZI(n, m, l) == 1 + l + 2*m + 4*n                   \* index of a fine vector
FI(n, m, l) == 1 + l + 3*m + (IF nd > 2 THEN 9*n ELSE 0)   \* of a face entry (2D: one layer)
\* --- restriction
RTol == 16
OkR(B) ==
  LET nz == Cardinality(Cells(nd))
      Fl(n, m, l) == B.f[FI(n, m, l)]
      Cf(n, m, l) == B.b[FI(n, m, l)]              \* centre: 1 along active axes
      o2 == IF nd > 1 THEN 1 ELSE 0
      o3 == IF nd > 2 THEN 1 ELSE 0
      E2 == {0, 2}
  IN /\ Inside(B.c)
     /\ \A v \in (1..Len(B.w[1])) \ iB :
          Near(nz*B.w[1][v], Sum([z \in Cells(nd) |-> B.z[ZI(z[1], z[2], z[3])][v]]), RTol)
     /\ R.mhd =>
          \* faces
          /\ nd > 1 => \A e \in {0, 1} :
               /\ Near((nz \div 2)*Cf(o3, o2, 1 + e)[1], Sum([z \in Ax(nd,3) \X Ax(nd,2) |-> Fl(z[1], z[2], 2*e)[1]]), RTol)
               /\ Near((nz \div 2)*Cf(o3, o2 + e, 1)[2], Sum([z \in Ax(nd,3) \X {0,1} |-> Fl(z[1], 2*e, z[2])[2]]), RTol)
               /\ nd > 2 => Near(4*Cf(1 + e, 1, 1)[3], Sum([z \in {0,1} \X {0,1} |-> Fl(2*e, z[1], z[2])[3]]), RTol)
          \* zone fields
          /\ nd > 1 => Near(2*B.w[1][oB+1], Cf(o3, o2, 1)[1] + Cf(o3, o2, 2)[1], RTol)
          /\ nd > 1 => Near(2*B.w[1][oB+2], Cf(o3, 1, 1)[2] + Cf(o3, 2, 1)[2], RTol)
          /\ IF nd > 2 THEN Near(2*B.w[1][oB+3], Cf(1, 1, 1)[3] + Cf(2, 1, 1)[3], RTol)
             ELSE Near(nz*B.w[1][oB+3], Sum([z \in Cells(nd) |-> B.z[ZI(z[1], z[2], z[3])][oB+3]]), RTol)
          /\ nd = 1 => \A a \in {1, 2, 3} : Near(nz*B.w[1][oB+a], Sum([z \in Cells(nd) |-> B.z[ZI(z[1], z[2], z[3])][oB+a]]), RTol)
\* --- prolongation (expected values are in units of 1/8 of those recorded)
PTol == 40
Unit == 4096
Win(B, v) == [i \in 1..(1 + 2*nd) |-> B.w[i][v]]
Mag(x, y, z) == (x*x + y*y + z*z) \div (2*Unit)
\* the interpolated zone field (before the faces decide it), rounded
PB(B, a, z) == Rnd(ProZone(Win(B, oB + a), nd, R.first, z), 8)
EInt(B) == [i \in 1..(1 + 2*nd) |-> B.w[i][5] - (IF R.mhd THEN Mag(B.w[i][oB+1], B.w[i][oB+2], B.w[i][oB+3]) ELSE 0)]
OkP(B) ==
  LET c == B.c
      Co(n, m, l) == B.b[FI(n, m, l)]
      Fl(n, m, l) == B.f[FI(n, m, l)]
      N2 == {0, 1}
      \* the neighbouring zone across side e (0 lower, 1 upper) of axis m is the finer Domain's own
      Own(m, e) == InsideX(Shift(c, m, 2*e - 1))
      \* layers: a two-dimensional block is repeated along x3
      L3(n) == IF nd > 2 THEN n ELSE 0
      p1 == [q \in N2 \X N2 \X {0,2} |-> IF Own(1, q[3] \div 2) THEN 8*Fl(L3(q[1]), q[2], q[3])[1] ELSE ProFace1(Co, nd, R.first, q[3], q[1], q[2])]
      p2 == [q \in N2 \X {0,2} \X N2 |-> IF Own(2, q[2] \div 2) THEN 8*Fl(L3(q[1]), q[2], q[3])[2] ELSE ProFace2(Co, nd, R.first, q[2], q[1], q[3])]
      p3 == [q \in {0,2} \X N2 \X N2 |-> IF nd > 2 /\ Own(3, q[1] \div 2) THEN 8*Fl(q[1], q[2], q[3])[3]
                                         ELSE ProFace3(Co, nd, R.first, q[1], q[2], q[3])]
      I == Inter(p1, p2, p3, R.u)
      x1(n, m, l) == IF l = 1 THEN I.x1[<<n, m>>] ELSE p1[<<n, m, l>>]
      x2(n, m, l) == IF m = 1 THEN I.x2[<<n, l>>] ELSE p2[<<n, m, l>>]
      x3(n, m, l) == IF n = 1 THEN I.x3[<<m, l>>] ELSE p3[<<n, m, l>>]
      up3(n) == IF nd > 2 THEN n + 1 ELSE 2
  IN /\ ~Inside(c)
     /\ \E m \in 1..nd : ~InX(c, m)
     /\ \A z \in Cells(nd) :
          LET f == B.z[ZI(z[1], z[2], z[3])]
          IN /\ \A v \in (1..Len(f)) \ (iB \union iE) : Near(8*f[v], ProZone(Win(B, v), nd, R.first, z), PTol)
             /\ R.ad => Near(8*f[5], ProZone(EInt(B), nd, R.first, z) + 8*(IF R.mhd THEN Mag(PB(B,1,z), PB(B,2,z), PB(B,3,z)) ELSE 0), 2*PTol)
             /\ (R.mhd /\ nd = 1) => \A a \in {1,2,3} : /\ Near(8*f[oB+a], ProZone(Win(B, oB+a), 1, R.first, z), PTol)
                                                        /\ Near(8*Fl(0, 0, z[3])[a], ProZone(Win(B, oB+a), 1, R.first, z), PTol)
             /\ (R.mhd /\ nd > 1) =>
                  /\ Near(8*Fl(z[1], z[2], z[3])[1], x1(z[1], z[2], z[3]), PTol)
                  /\ Near(8*Fl(z[1], z[2], z[3])[2], x2(z[1], z[2], z[3]), PTol)
                  /\ Near(8*Fl(z[1], z[2], z[3])[3], x3(z[1], z[2], z[3]), PTol)
                  /\ Near(16*f[oB+1], x1(z[1], z[2], z[3]) + x1(z[1], z[2], z[3]+1), 2*PTol)
                  /\ Near(16*f[oB+2], x2(z[1], z[2], z[3]) + x2(z[1], z[2]+1, z[3]), 2*PTol)
                  /\ Near(16*f[oB+3], x3(z[1], z[2], z[3]) + x3(up3(z[1]), z[2], z[3]), 2*PTol)
Ok(B) == IF B.kind = "R" THEN OkR(B) ELSE OkP(B)
TInit == s \in 1..Len(T) /\ k = 0
TNext == k < Len(R.blocks) /\ k' = k + 1 /\ s' = s /\ Ok(R.blocks[k'])
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Len(R.blocks) => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
