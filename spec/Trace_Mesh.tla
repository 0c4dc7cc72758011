----------------------------- MODULE Trace_Mesh -----------------------------
(* The mesh the real code built (or its refusal) against the specification.
   Part "C06": partition, ownership, coordinates, neighbours.
   Part "C07": acceptance and links.                                        *)
EXTENDS Mesh, Json, IOUtils
VARIABLES s
T == ndJsonDeserialize(IOEnv.VF_TRACE)
Part6 == IOEnv.VF_PART = "C06"
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
Set(q) == {q[i] : i \in 1..Len(q)}
\* Grids as records of the specification (dom: index in M, given as r.g[i].dom)
GS(r) == {[dom |-> g.dom, rank |-> g.rank, disp |-> g.disp, nx |-> g.nx] : g \in Set(r.g)}
G0(g) == [dom |-> g.dom, rank |-> g.rank, disp |-> g.disp, nx |-> g.nx]
\* zone edges and centres in ticks of 1/16
Edge(r, l, m, e) == 16*r.x0[m] + (16*r.u[m]*e) \div (IF m <= r.nd THEN Pow2(l) ELSE 1)
Centre(r, l, m, e) == 16*r.x0[m] + (8*r.u[m]*(2*e + 1)) \div (IF m <= r.nd THEN Pow2(l) ELSE 1)
CoordsOk(r, g) ==
  LET l == r.M[g.dom].level IN
  \A m \in Dim :
    /\ g.act[m] = g.nx[m] /\ Len(g.cc[m]) = g.nx[m]
    /\ g.min[m] = Edge(r, l, m, g.disp[m]) /\ g.max[m] = Edge(r, l, m, g.disp[m] + g.nx[m])
    /\ \A i \in 1..g.nx[m] : g.cc[m][i] = Centre(r, l, m, g.disp[m] + i - 1)
NeighboursOk(r, G, g) ==
  \A m \in Dim : /\ g.nb[2*m - 1] = NeighbourRank(r.M, G, G0(g), m, -1, r.bc)
                 /\ g.nb[2*m]     = NeighbourRank(r.M, G, G0(g), m, 1, r.bc)
Ok06(r) ==
  LET G == GS(r) IN
  /\ Cardinality(G) = Len(r.g)
  /\ \A i \in 1..Len(r.M) : Tiles(r.M, G, i) /\ Balanced(r.M, G, i) /\ Divided(r.M, G, i, r.np) /\ OneOwner(G, i)
  /\ EveryoneWorks(G, r.np)
  /\ \A g \in Set(r.g) : CoordsOk(r, g) /\ NeighboursOk(r, G, g)
\* links
Kids(r, G, p) == {c \in G : r.M[c.dom].level = r.M[p.dom].level + 1}
LinkIs(r, e, other, lo, hi, faces) ==
  /\ e.dom = other.dom /\ e.rank = other.rank
  /\ \A m \in Dim : e.lo[m] = lo[m] /\ e.hi[m] = hi[m]
  /\ {<<f[1], f[2]>> : f \in Set(e.faces)} = faces
F(M, x, m) == IF ActDim(M, m) THEN 2*x ELSE x
KidOk(r, G, g, e) ==
  LET p == G0(g) IN
  \E c \in Kids(r, G, p) :
     /\ ParentDom(r.M, p, c, r.nd)
     /\ LinkIs(r, e, c, [m \in Dim |-> OLo(r.M, p, c, m)], [m \in Dim |-> OHi(r.M, p, c, m)], Faces(r.M, p, c))
     /\ Linked(r.M, p, c, r.nd) \/ (Closed(r.M, p, c) /\ Len(e.faces) = 0)       \* edge or corner contact only: harmless
ParOk(r, G, g, e) ==
  LET c == G0(g) IN
  \E p \in {q \in G : r.M[q.dom].level = r.M[c.dom].level - 1} :
     /\ ParentDom(r.M, p, c, r.nd)
     /\ LinkIs(r, e, p, [m \in Dim |-> F(r.M, OLo(r.M, p, c, m), m)], [m \in Dim |-> F(r.M, OHi(r.M, p, c, m), m)], Faces(r.M, p, c))
     /\ Linked(r.M, p, c, r.nd) \/ (Closed(r.M, p, c) /\ Len(e.faces) = 0)
Ok07(r) ==
  LET G == GS(r) IN
  \A g \in Set(r.g) :
    /\ \A i \in 1..Len(g.kids) : KidOk(r, G, g, g.kids[i])
    /\ \A i \in 1..Len(g.pars) : ParOk(r, G, g, g.pars[i])
    /\ \A i, j \in 1..Len(g.kids) : i # j => <<g.kids[i].dom, g.kids[i].rank>> # <<g.kids[j].dom, g.kids[j].rank>>
    /\ \A i, j \in 1..Len(g.pars) : i # j => <<g.pars[i].dom, g.pars[i].rank>> # <<g.pars[j].dom, g.pars[j].rank>>
    /\ \A c \in Kids(r, G, G0(g)) : Linked(r.M, G0(g), c, r.nd) => \E e \in Set(g.kids) : e.dom = c.dom /\ e.rank = c.rank
    /\ \A p \in {q \in G : r.M[q.dom].level = r.M[g.dom].level - 1} :
         Linked(r.M, p, G0(g), r.nd) => \E e \in Set(g.pars) : e.dom = p.dom /\ e.rank = p.rank
RecordOk(r) == IF Part6 THEN r.accepted => Ok06(r)
               ELSE (r.accepted <=> Legal(r.M, r.nd, r.np, r.bc)) /\ (r.accepted => Ok07(r))
TInit == \E x \in 1..Len(T) : s = x
TSpec == TInit /\ [][FALSE]_s
Accept == RecordOk(T[s]) => TLCSet(s, TRUE)
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x, IF T[x].accepted THEN "accepted" ELSE "refused">>)} = {}
=============================================================================
