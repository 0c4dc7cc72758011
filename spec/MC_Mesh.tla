------------------------------- MODULE MC_Mesh -------------------------------
(* All legal meshes in a small scope, built by the code's rules (division into
   equal parts with the remainder on the first ones, round-robin assignment to
   processes, links computed independently from the parent's and the child's
   side), must satisfy the declarative properties.                          *)
EXTENDS Mesh
CONSTANTS RootN, MaxNp, EvenRule
VARIABLES M, np, bc, G, step
vars == <<M, np, bc, G, step>>
nd == 2
Ngs == {<<a, b, 1>> : a \in 1..3, b \in 1..2}
RootD(n1, n2, g) == [level |-> 0, nx |-> <<n1, n2, 1>>, disp |-> <<0, 0, 0>>, ng |-> g]
Child(o1, w1, o2, w2, g) == [level |-> 1, nx |-> <<2*w1, 2*w2, 1>>, disp |-> <<2*o1, 2*o2, 0>>, ng |-> g]
\* code rules
PartsOf(d, m) == [k \in 0..(d.ng[m] - 1) |-> [lo |-> d.disp[m] + Part(d.nx[m], d.ng[m], k),
                                               n |-> Part(d.nx[m], d.ng[m], k + 1) - Part(d.nx[m], d.ng[m], k)]]
GridsOf(MM, i, first, P) ==
  LET d == MM[i] IN
  {[dom |-> i, rank |-> (first + a + d.ng[1]*b + d.ng[1]*d.ng[2]*c) % P,
    disp |-> <<PartsOf(d, 1)[a].lo, PartsOf(d, 2)[b].lo, PartsOf(d, 3)[c].lo>>,
    nx |-> <<PartsOf(d, 1)[a].n, PartsOf(d, 2)[b].n, PartsOf(d, 3)[c].n>>] :
       a \in 0..(d.ng[1] - 1), b \in 0..(d.ng[2] - 1), c \in 0..(d.ng[3] - 1)}
AllGrids(MM, P) == UNION {GridsOf(MM, i, SumGrids(MM, P, i - 1), P) : i \in 1..Len(MM)}
LegalHere(MM, P, b) ==
  IF EvenRule THEN Legal(MM, nd, P, b)
  ELSE \* negative control: the rule for even edges of refined Grids dropped
       Legal([i \in 1..Len(MM) |-> [MM[i] EXCEPT !.ng = IF MM[i].level > 0 THEN <<1, 1, 1>> ELSE @]], nd, 1, b)
       /\ SumGrids(MM, P, Len(MM)) % P = 0 /\ \A i \in 1..Len(MM) : NGrids(MM[i]) <= P
Init == /\ np \in 1..MaxNp /\ bc \in {<<FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE>>} /\ step = 0 /\ G = {}
        /\ \E n1 \in RootN, g \in Ngs : M = <<RootD(n1, 8, g)>>
AddChild == /\ step = 0 /\ Len(M) = 1 /\ M[1].ng[2] = 1
            /\ \E o \in 0..(M[1].nx[1] - 2), w \in 2..8, g \in Ngs :
                 /\ o + w <= M[1].nx[1]
                 /\ M' = Append(M, Child(o, w, 2, 4, g))
            /\ UNCHANGED <<np, bc, G, step>>
Divide == /\ step = 0 /\ LegalHere(M, np, bc) /\ G' = AllGrids(M, np) /\ step' = 1 /\ UNCHANGED <<M, np, bc>>
Next == AddChild \/ Divide
Spec == Init /\ [][Next]_vars

Partition == step = 1 => \A i \in 1..Len(M) : Tiles(M, G, i) /\ Balanced(M, G, i) /\ Divided(M, G, i, np) /\ OneOwner(G, i)
Ownership == step = 1 => EveryoneWorks(G, np)
MutualNeighbours == step = 1 =>
  \A g \in G : \A m \in 1..2, s \in {-1, 1} :
     /\ Cardinality(Adjacent(M, G, g, m, s, bc)) <= 1
     /\ \A h \in Adjacent(M, G, g, m, s, bc) : g \in Adjacent(M, G, h, m, -s, bc)
\* the same overlap computed from the child's side (parent's edges doubled)
CLo(p, c, m) == MaxOf(Lo(c, m), IF ActDim(M, m) THEN 2*Lo(p, m) ELSE Lo(p, m))
CHi(p, c, m) == MinOf(Hi(c, m), IF ActDim(M, m) THEN 2*Hi(p, m) ELSE Hi(p, m))
SymmetricLinks == step = 1 =>
  \A p, c \in G : M[c.dom].level = M[p.dom].level + 1 /\ Closed(M, p, c) =>
     \A m \in Dim : ActDim(M, m) => CLo(p, c, m) = 2*OLo(M, p, c, m) /\ CHi(p, c, m) = 2*OHi(M, p, c, m)
\* every fine zone has exactly one coarse zone under it, owned by exactly one Grid
Covered == step = 1 => \A c \in G : M[c.dom].level = 1 =>
  LET ps == {p \in G : M[p.dom].level = 0 /\ Overlap(M, p, c)}
      RECURSIVE Sm(_)
      Sm(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Width(M, x, c, 1)*Width(M, x, c, 2) + Sm(S \ {x})
  IN 4 * Sm(ps) = Vol(c)
\* every level boundary face is seen by the Grid on each side of it
FacesCovered == step = 1 => \A c \in G : M[c.dom].level = 1 =>
  \A m \in 1..2, s \in {-1, 1} :
    (LET d == M[c.dom] IN IF s < 0 THEN Lo(c, m) = Lo(d, m) /\ ~AtLeft(d, m) ELSE Hi(c, m) = Hi(d, m) /\ ~AtRight(M, d, m)) =>
    \E p \in G : M[p.dom].level = 0 /\ <<m, s>> \in Faces(M, p, c)
SomeLegal == ~(step = 1 /\ Len(M) = 2 /\ NGrids(M[2]) > 1 /\ NGrids(M[1]) > 1)   \* must be violated (vacuity)
=============================================================================
