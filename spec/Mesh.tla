-------------------------------- MODULE Mesh --------------------------------
(* Nested mesh: Domains, their division into Grids, ownership, neighbours,
   and the links between parent and child Grids (init_mesh.c, init_grid.c).
   Properties C06 and C07.

   A mesh is a sequence of Domains in input order,
     [level, nx, disp, ng]  (three components each)
   with nx, disp in zones of their own level; ng the number of Grids along
   each direction (<<0,0,0>> means automatic division into as many Grids as
   there are processes).  nd is the number of active directions (the first nd),
   np the number of processes, bc[m] = TRUE if direction m is periodic.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NGhost

Pow2(l) == CASE l = 0 -> 1 [] l = 1 -> 2 [] l = 2 -> 4 [] l = 3 -> 8
Dim == 1..3
Lo(d, m) == d.disp[m]
Hi(d, m) == d.disp[m] + d.nx[m]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
IsRoot(d) == d.level = 0
Root(M) == CHOOSE d \in {M[i] : i \in 1..Len(M)} : d.level = 0
OnLevel(M, l) == {i \in 1..Len(M) : M[i].level = l}
Levels(M) == {M[i].level : i \in 1..Len(M)}
NGrids(d) == d.ng[1] * d.ng[2] * d.ng[3]
Auto(d) == d.ng[1] = 0
RECURSIVE SumGrids(_, _, _)
SumGrids(M, np, i) == IF i = 0 THEN 0 ELSE (IF Auto(M[i]) THEN np ELSE NGrids(M[i])) + SumGrids(M, np, i - 1)

-----------------------------------------------------------------------------
(* Legal meshes *)
\* edge e of a Domain on level l at the physical boundary?
AtLeft(d, m)  == Lo(d, m) = 0
AtRight(M, d, m) == Hi(d, m) = Root(M).nx[m] * Pow2(d.level)

Aligned(d, nd) == \A m \in 1..nd : d.nx[m] % Pow2(d.level) = 0 /\ d.disp[m] % Pow2(d.level) = 0
Apart(a, b, nd) == \E m \in 1..nd : Hi(a, m) < Lo(b, m) \/ Hi(b, m) < Lo(a, m)
\* c lies in p: each edge is on the same physical boundary as p's, or far
\* enough inside for p to fill c's ghost zones
InsideOf(M, c, p, nd) ==
  \A m \in 1..nd :
    /\ (Lo(c, m) = 2*Lo(p, m) /\ AtLeft(p, m)) \/ Lo(c, m) - 2*Lo(p, m) >= MaxOf(NGhost, 1)
    /\ (Hi(c, m) = 2*Hi(p, m) /\ AtRight(M, p, m)) \/ 2*Hi(p, m) - Hi(c, m) >= MaxOf(NGhost, 1)
PeriodicOk(M, d, nd, bc) == \A m \in 1..nd : bc[m] => (AtLeft(d, m) <=> AtRight(M, d, m))
\* pieces of n zones in g parts, as cut positions: the first n%g parts get one more
Part(n, g, k) == k * (n \div g) + MinOf(k, n % g)          \* left edge of part k (0-based)
DivisionOk(d, nd, np) ==
  \/ Auto(d)
  \/ /\ NGrids(d) <= np
     /\ \A m \in Dim : d.ng[m] >= 1
     /\ \A m \in Dim : d.ng[m] > 1 => d.nx[m] > 1 /\ d.nx[m] \div d.ng[m] >= NGhost
     /\ d.level > 0 => \A m \in 1..nd : \A k \in 0..(d.ng[m] - 1) : Part(d.nx[m], d.ng[m], k) % 2 = 0
SameDim(d, nd) == \A m \in Dim : IF m <= nd THEN d.nx[m] > 1 ELSE d.nx[m] = 1
Legal(M, nd, np, bc) ==
  /\ Cardinality(OnLevel(M, 0)) = 1
  /\ \A l \in Levels(M) : l = 0 \/ (l - 1) \in Levels(M)
  /\ \A i \in 1..Len(M) : /\ SameDim(M[i], nd) /\ Aligned(M[i], nd) /\ PeriodicOk(M, M[i], nd, bc)
                          /\ DivisionOk(M[i], nd, np)
                          /\ M[i].level > 0 => \E j \in OnLevel(M, M[i].level - 1) : InsideOf(M, M[i], M[j], nd)
  /\ \A i, j \in 1..Len(M) : i # j /\ M[i].level = M[j].level => Apart(M[i], M[j], nd)
  /\ SumGrids(M, np, Len(M)) % np = 0

-----------------------------------------------------------------------------
(* Grids: records [dom, rank, disp, nx] (dom: index of the Domain in M) *)
In(g, d) == \A m \in Dim : d.disp[m] <= g.disp[m] /\ g.disp[m] + g.nx[m] <= d.disp[m] + d.nx[m] /\ g.nx[m] >= 1
Disjoint(a, b) == \E m \in Dim : Hi(a, m) <= Lo(b, m) \/ Hi(b, m) <= Lo(a, m)
Vol(g) == g.nx[1] * g.nx[2] * g.nx[3]
RECURSIVE SumVol(_)
SumVol(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Vol(x) + SumVol(S \ {x})
Of(G, i) == {g \in G : g.dom = i}
\* the Grids of Domain i tile it
Tiles(M, G, i) == /\ \A g \in Of(G, i) : In(g, M[i])
                  /\ \A a, b \in Of(G, i) : a # b => Disjoint(a, b)
                  /\ SumVol(Of(G, i)) = Vol(M[i])
Balanced(M, G, i) == \A a, b \in Of(G, i) : \A m \in Dim : a.nx[m] - b.nx[m] \in {-1, 0, 1}
Divided(M, G, i, np) ==
  IF Auto(M[i]) THEN Cardinality(Of(G, i)) = np
  ELSE \A m \in Dim : Cardinality({g.disp[m] : g \in Of(G, i)}) = M[i].ng[m]
OneOwner(G, i) == \A a, b \in Of(G, i) : a # b => a.rank # b.rank
EveryoneWorks(G, np) == \A p \in 0..(np - 1) : \E g \in G : g.rank = p
\* neighbour of g at side s (-1, 1) of direction m: the Grid that holds the adjacent zones (after periodic wrap), or none
Adjacent(M, G, g, m, s, bc) ==
  LET d == M[g.dom]
      e == IF s < 0 THEN Lo(g, m) - 1 ELSE Hi(g, m)
      w == IF ~bc[m] THEN e ELSE IF e < Lo(d, m) /\ AtLeft(d, m) THEN Hi(d, m) - 1
           ELSE IF e >= Hi(d, m) /\ AtRight(M, d, m) THEN Lo(d, m) ELSE e
  IN {h \in Of(G, g.dom) : /\ Lo(h, m) <= w /\ w < Hi(h, m)
                           /\ \A k \in Dim \ {m} : Lo(h, k) = Lo(g, k)}
NeighbourRank(M, G, g, m, s, bc) ==
  LET A == Adjacent(M, G, g, m, s, bc) \ {g} IN IF A = {} THEN -1 ELSE (CHOOSE h \in A : TRUE).rank

-----------------------------------------------------------------------------
(* Links between a Grid p and a Grid c on the next finer level.  The overlap is
   given in zones of p's level; in direction m it may be empty (lo >= hi).    *)
ActDim(M, m) == Root(M).nx[m] > 1
Half(M, x, m) == IF ActDim(M, m) THEN x \div 2 ELSE x
OLo(M, p, c, m) == MaxOf(Lo(p, m), Half(M, Lo(c, m), m))
OHi(M, p, c, m) == MinOf(Hi(p, m), Half(M, Hi(c, m), m))
Width(M, p, c, m) == OHi(M, p, c, m) - OLo(M, p, c, m)
Overlap(M, p, c) == \A m \in Dim : Width(M, p, c, m) > 0
Closed(M, p, c) == \A m \in Dim : Width(M, p, c, m) >= 0
ParentDom(M, p, c, nd) == InsideOf(M, M[c.dom], M[p.dom], nd)
\* is face (m, s) of child Grid c, in its contact with p, a boundary between the levels?
LevelFace(M, p, c, m, s) ==
  LET d == M[c.dom] IN
  /\ ActDim(M, m)
  /\ Closed(M, p, c)
  /\ \A k \in Dim \ {m} : Width(M, p, c, k) > 0
  /\ IF s < 0 THEN Lo(c, m) = Lo(d, m) /\ ~AtLeft(d, m) /\ OLo(M, p, c, m) = Half(M, Lo(c, m), m)
              ELSE Hi(c, m) = Hi(d, m) /\ ~AtRight(M, d, m) /\ OHi(M, p, c, m) = Half(M, Hi(c, m), m)
Faces(M, p, c) == {f \in Dim \X {-1, 1} : LevelFace(M, p, c, f[1], f[2])}
Linked(M, p, c, nd) == ParentDom(M, p, c, nd) /\ (Overlap(M, p, c) \/ Faces(M, p, c) # {})
=============================================================================
