---------------------------- MODULE Trace_OutFiles --------------------------
(* Validates the files a run of the real code left behind. Numbers are integers: lengths in 1/16 of a root zone (from the edge of the root
   Domain), values of variable w in units un(w) (2e5 units are its largest magnitude), times in 1e-4 of the last one.
   record: [id, status, nd, ns, ad, mhd, sg, grids, blocks, snaps, files, hist, other]
     snaps (2): [t, dt, v]     v[g][w]: values of variable w in the zones of Grid g
     files    : [name, cols, ...header fields]    cols: sequence of [n, x]
     hist     : [lev, dom, home, rows]            rows of a history file;   other: number of files that belong to nothing *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k, c
O == INSTANCE OutFiles WITH Grids <- {}, Blocks <- {}, Fault <- "none", files <- <<>>, todo <- {}
R == T[s]
NB == Len(R.blocks)
NG == Len(R.grids)
Rng(f) == {f[i] : i \in DOMAIN f}
Flat(f) == IF f = <<>> THEN {} ELSE Rng(f)
\* variables of a dump, in the order of the binary format
Scal(b) == [i \in 1..R.ns |-> (IF b.out = "cons" THEN "s" ELSE "r") \o ToString(i - 1)]
Vars(b) == IF b.out = "cons" THEN <<"d", "M1", "M2", "M3">> \o (IF R.ad THEN <<"E">> ELSE <<>>) \o (IF R.mhd THEN <<"B1", "B2", "B3">> ELSE <<>>) \o Scal(b)
                                   \o (IF R.sg THEN <<"Phi">> ELSE <<>>)
           ELSE <<"d", "V1", "V2", "V3">> \o (IF R.ad THEN <<"P">> ELSE <<>>) \o (IF R.mhd THEN <<"B1", "B2", "B3">> ELSE <<>>) \o Scal(b)
                                   \o (IF R.sg THEN <<"Phi">> ELSE <<>>)
Near(a, b) == O!Abs(a - b) <= 1
Values(b, g, V, x) == /\ Len(x) = O!Count(b, g)
                      /\ IF O!Dump(b) THEN \A q \in 1..Len(x) : O!Abs(x[q] - V[q]) <= 2
                         ELSE \A q \in 1..Len(x) : O!Average(x[q], V, O!Behind(b, g, q - 1))
\* DIMENSIONS count the corners of the zones; an inactive direction has one
Corner(g, m) == IF O!Active(g, m) THEN g.nx[m] + 1 ELSE 1
KeptDirs(b, g) == LET a == SelectSeq(<<1, 2, 3>>, LAMBDA m : O!Active(g, m) /\ O!Kept(b, g, m)) IN [i \in 1..3 |-> IF i <= Len(a) THEN g.nx[a[i]] + 1 ELSE 1]
\* a reduced direction has one corner and spans the Grid
Place(b, g, f) == /\ f.dims = [m \in 1..3 |-> IF O!Kept(b, g, m) THEN Corner(g, m) ELSE 1]
                  /\ \A m \in 1..3 : O!Active(g, m) => f.origin[m] = g.off[m]*O!Width(g)
                                                      /\ (O!Kept(b, g, m) => f.spacing[m] = O!Width(g))
Top(g, n, f) == f.lev = g.lev /\ f.dom = g.dom /\ Near(f.time, R.snaps[n].t)
\* coordinates of zone centres (twice, so that they are integers)
Centre(g, m, z) == (2*(g.off[m] + z) + 1)*O!Width(g)
Indices(b, g, f) == LET nx == [m \in 1..3 |-> O!Size(b, g, m)] IN
  \A q \in 1..Len(f.cols[1].x) : f.ijk[q] = LET p == <<(q - 1) % nx[1], ((q - 1) \div nx[1]) % nx[2], (q - 1) \div (nx[1]*nx[2])>>
                                                a == SelectSeq(<<1, 2, 3>>, LAMBDA m : O!Active(g, m) /\ O!Kept(b, g, m))
                                            IN [i \in 1..Len(a) |-> p[a[i]]]
Named(b, g, n, f) == \* every variable is there under its name
  /\ {f.cols[i].n : i \in DOMAIN f.cols} = Rng(Vars(b)) /\ Len(f.cols) = Len(Vars(b))
  /\ \A i \in DOMAIN f.cols : Values(b, g, R.snaps[n].v[g.ix][f.cols[i].n], f.cols[i].x)
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x
\* images start with the uppermost row
Pixel(b, g, q) == LET w == O!Count(b, g)
                      a == SelectSeq(<<1, 2, 3>>, LAMBDA m : O!Active(g, m) /\ O!Kept(b, g, m))
                      n1 == g.nx[a[1]]
                      row == (w \div n1) - 1 - (q \div n1)
                  IN row*n1 + (q % n1)
Means(b, g, V) == [q \in 0..(O!Count(b, g) - 1) |-> LET S == O!Behind(b, g, q) IN O!Sum(V, S) \div Cardinality(S)]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Gray(b, g, V, f) ==
  LET A == Means(b, g, V)
      vals == {A[q] : q \in DOMAIN A}
      lo == IF b.fix \in {1, 3} THEN b.lo ELSE Min(vals)
      hi == IF b.fix \in {2, 3} THEN b.hi ELSE Max(vals)
  IN /\ Len(f.cols[1].x) = O!Count(b, g)
     /\ <<f.dims[1] + 1, f.dims[2] + 1>> = <<KeptDirs(b, g)[1], KeptDirs(b, g)[2]>>
     /\ hi - lo > 2000 => \A q \in DOMAIN A :
           LET v == A[Pixel(b, g, q)]
           IN /\ f.cols[1].x[q + 1] >= Clamp((256*(v - 4 - lo)) \div (hi - lo + 6)) - 1
              /\ f.cols[1].x[q + 1] <= Clamp((256*(v + 4 - lo)) \div (hi - lo - 6)) + 1
\* colours of the palette used are ordered by brightness
Colour(b, g, V, f) ==
  LET A == Means(b, g, V)
      vals == {A[q] : q \in DOMAIN A}
      lo == IF b.fix \in {1, 3} THEN b.lo ELSE Min(vals)
      hi == IF b.fix \in {2, 3} THEN b.hi ELSE Max(vals)
      X == f.cols[1].x
      N == Len(X)
  IN /\ N = O!Count(b, g) /\ <<f.dims[1] + 1, f.dims[2] + 1>> = <<KeptDirs(b, g)[1], KeptDirs(b, g)[2]>>
     /\ O!Abs(f.dmin - Min(vals)) <= 3 /\ O!Abs(f.dmax - Max(vals)) <= 3
     /\ hi - lo > 2000 => \A q \in 1..N : LET v == A[Pixel(b, g, q - 1)] IN
           /\ (v <= lo - 4 => X[q] = 0) /\ (v >= hi + 4 => X[q] = 765)
           /\ \A d \in {1, 7, 31, N \div 2} : LET p == ((q + d - 1) % N) + 1
                                                  w == A[Pixel(b, g, p - 1)] IN v + 8 + (hi - lo) \div 100 < w => X[q] <= X[p]
Ok(b, g, n, f) ==
  LET V == IF O!Dump(b) THEN <<>> ELSE R.snaps[n].v[g.ix][b.out] IN
  CASE b.fmt = "vtk" /\ O!Dump(b) -> Top(g, n, f) /\ Place(b, g, f) /\ Named(b, g, n, f)
    [] b.fmt = "vtk" /\ ~O!Dump(b) -> Top(g, n, f) /\ Place(b, g, f) /\ Len(f.cols) = 1 /\ f.cols[1].n = b.id /\ Values(b, g, V, f.cols[1].x)
    [] b.fmt = "bin" -> /\ f.coord = -1 /\ f.dims = g.nx /\ f.nvar = Len(Vars(b)) - (IF R.sg THEN 1 ELSE 0) /\ f.ns = R.ns /\ f.sg = (IF R.sg THEN 1 ELSE 0) /\ f.par = 0
                        /\ f.gm1 = (IF R.ad THEN 400 ELSE 0) /\ f.cs = (IF R.ad THEN 0 ELSE 800)
                        /\ Near(f.time, R.snaps[n].t) /\ Near(f.dt, R.snaps[n].dt)
                        /\ \A m \in 1..3 : Len(f.x[m]) = g.nx[m] /\ (O!Active(g, m) => \A z \in 0..(g.nx[m] - 1) : f.x[m][z + 1] = Centre(g, m, z))
                        /\ Len(f.cols) = Len(Vars(b)) /\ \A i \in DOMAIN f.cols : Values(b, g, R.snaps[n].v[g.ix][Vars(b)[i]], f.cols[i].x)
    [] b.fmt = "tab" /\ O!Dump(b) -> /\ Top(g, n, f) /\ Named(b, g, n, f) /\ Indices(b, g, f)
                                     /\ f.dims = g.nx
                                     /\ \A m \in 1..3 : O!Active(g, m) => f.spacing[m] = g.nx[m]*O!Width(g)      \* the size of the Grid
                                     /\ \A q \in 1..Len(f.xyz) : f.xyz[q] = [i \in 1..R.nd |-> Centre(g, i, f.ijk[q][i])]
    [] b.fmt = "tab" /\ ~O!Dump(b) -> Len(f.cols) = 1 /\ Values(b, g, V, f.cols[1].x) /\ Indices(b, g, f)
    [] b.fmt = "pgm" -> Gray(b, g, V, f)
    [] b.fmt = "ppm" -> Colour(b, g, V, f)
\* files of one name
Found(nm) == {i \in 1..Len(R.files) : R.files[i].name = nm}
\* history: the volume average over the Domain
Hvars == <<"d">> \o (IF R.ad THEN <<"E">> ELSE <<>>) \o <<"M1", "M2", "M3", "KE1", "KE2", "KE3">> \o (IF R.mhd THEN <<"ME1", "ME2", "ME3">> ELSE <<>>)
         \o (IF R.sg THEN <<"PE">> ELSE <<>>) \o [i \in 1..R.ns |-> "s" \o ToString(i - 1)]
RECURSIVE Total(_, _, _)
Total(V, G, w) == IF G = {} THEN 0 ELSE LET g == CHOOSE x \in G : TRUE IN O!Sum(V[g][w], DOMAIN V[g][w]) + Total(V, G \ {g}, w)
RECURSIVE ZonesIn(_)
ZonesIn(G) == IF G = {} THEN 0 ELSE LET g == CHOOSE x \in G : TRUE IN R.grids[g].nx[1]*R.grids[g].nx[2]*R.grids[g].nx[3] + ZonesIn(G \ {g})
OkHist == /\ \A ld \in {<<R.grids[g].lev, R.grids[g].dom>> : g \in 1..NG} :
               LET H == {i \in 1..Len(R.hist) : R.hist[i].lev = ld[1] /\ R.hist[i].dom = ld[2]}
                   G == {g \in 1..NG : <<R.grids[g].lev, R.grids[g].dom>> = ld}
               IN Cardinality(H) = 1 /\ \A i \in H : \A n \in 1..Len(R.snaps) :
                    /\ R.hist[i].home /\ Len(R.hist[i].rows) = Len(R.snaps)
                    /\ LET row == R.hist[i].rows[n] IN
                       /\ Near(row.t, R.snaps[n].t) /\ Near(row.dt, R.snaps[n].dt)
                       /\ Len(row.v) = Len(Hvars)
                       /\ \A j \in 1..Len(Hvars) : O!Abs(ZonesIn(G)*row.v[j] - Total(R.snaps[n].v, G, Hvars[j])) <= 2*ZonesIn(G)
          /\ Len(R.hist) = Cardinality({<<R.grids[g].lev, R.grids[g].dom>> : g \in 1..NG})
Say(p, what, where) == p \/ (PrintT("WHY " \o ToString(R.id) \o " " \o what \o ": " \o ToString(where)) /\ FALSE)
Steps == NB*NG*Len(R.snaps) + 1
B == R.blocks[(k % NB) + 1]
G == LET g == ((k \div NB) % NG) + 1 IN R.grids[g]
N == (k \div (NB*NG)) + 1
TInit == s \in 1..Len(T) /\ k = 0 /\ c = 0 /\ R.status = 0
TNext == /\ k < Steps /\ k' = k + 1 /\ s' = s
         /\ IF k' < Steps
            THEN LET F == Found(O!Name(B, G, N - 1)) IN
                 IF O!Touches(B, G) THEN c' = c + 1 /\ Say(Cardinality(F) = 1, "files of a block and Grid", <<B.fmt, B.out, B.id, G, Cardinality(F)>>)
                                         /\ \A i \in F : Say(Ok(B, G, N, R.files[i]), "content", R.files[i].name)
                 ELSE c' = c /\ Say(F = {}, "file of a Grid outside the selection", <<B.fmt, B.id, G>>)
            ELSE c' = c /\ Say(c = Len(R.files) /\ R.other = 0, "files that belong to nothing", <<c, Len(R.files), R.other>>) /\ Say(OkHist, "history", R.id)
TSpec == TInit /\ [][TNext]_<<s, k, c>>
Accept == k = Steps => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
