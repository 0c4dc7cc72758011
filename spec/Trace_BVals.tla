---------------------------- MODULE Trace_BVals -----------------------------
(* Every zone and face, ghost zones included, of every Grid of a Domain in the
   real code against BVals.  r: n, b, off (refined Domain: edges that are level
   boundaries are masked), grids [disp, nx, v: sequence over variables of
   flattened arrays (x1 fastest) over the Grid with ghost zones].           *)
EXTENDS BVals, Json, IOUtils, TLC
VARIABLES s
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
Gh(r, m) == IF r.n[m] > 1 THEN NG ELSE 0
Size(r, g, m) == g.nx[m] + 2*Gh(r, m)
Tag(r, vi, p) == vi*100000 + (p[3]*(r.n[2] + 1) + p[2])*(r.n[1] + 1) + p[1] + 1
\* the field on the last face of a periodic direction is that on the first
Val(r, v, vi, q) == Tag(r, vi, [m \in Dim |-> IF IsFace(v, m) /\ q[m] = r.n[m] /\ r.b[2*m] = 4 THEN 0 ELSE q[m]])
\* b = 0: boundary with a coarser level, not this specification's business
Foreign(r, v, p) == \E m \in Dim : BcAt(v, r.n, r.b, m, p[m]) = 3 \/ (IsFace(v, m) /\ p[m] \in {0, r.n[m]} /\ r.b[IF p[m] = 0 THEN 2*m-1 ELSE 2*m] = 3)
\* zones under a finer Domain hold its averages (and faces on its surface); the cell field (and
\* its copy on the faces of an ignorable axis) next to it is computed from those faces or corrected
Src(r, v, p) == [m \in Dim |-> SrcAt(v, r.n, r.b, m, p[m])]
Covered(r, v, p) == \E c \in {r.cov[i] : i \in 1..Len(r.cov)} :
  LET q == Src(r, v, p) IN \A m \in Dim : c.lo[m] <= q[m] /\ IF v.k = "b" \/ (v.k = "f" /\ (r.n[v.c] = 1 \/ v.c = m)) THEN q[m] <= c.hi[m] ELSE q[m] < c.hi[m]
VarOk(r, g, vi) ==
  LET v == r.vars[vi]
      a == g.v[vi]
      s1 == Size(r, g, 1)  s2 == Size(r, g, 2)
      VV(q) == Val(r, v, vi, q)
  IN \A k \in 0..(Size(r, g, 3) - 1), j \in 0..(s2 - 1), i \in 0..(s1 - 1) :
       LET p == <<g.disp[1] + i - Gh(r, 1), g.disp[2] + j - Gh(r, 2), g.disp[3] + k - Gh(r, 3)>>
           loc == <<i - Gh(r, 1), j - Gh(r, 2), k - Gh(r, 3)>>
       IN \/ \E m \in Dim : IsFace(v, m) /\ r.n[m] > 1 /\ loc[m] = -NG
          \/ Foreign(r, v, p) \/ Covered(r, v, p)
          \/ a[(k*s2 + j)*s1 + i + 1] = Holds(v, r.n, r.b, p, VV)
          \/ ~PrintT(<<"BAD", r.id, vi, p, a[(k*s2 + j)*s1 + i + 1], Holds(v, r.n, r.b, p, VV)>>)
RecordOk(r) == \A gi \in 1..Len(r.g) : \A vi \in 1..Len(r.vars) : VarOk(r, r.g[gi], vi)
TInit == \E x \in 1..Len(T) : s = x
TSpec == TInit /\ [][FALSE]_s
Accept == RecordOk(T[s]) => TLCSet(s, TRUE)
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x>>)} = {}
=============================================================================
