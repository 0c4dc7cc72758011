--------------------------- MODULE Trace_Particles ---------------------------
(* Validates recorded particle runs. A record: [id, nd, cut, bc, interp, mass, first, rounds, lis]
     first: all particles after start-up; rounds[r]: [b, a, z, tot, num]
       b: all particles after the move and before the boundary conditions, a: after them: entries [i, g, q, v, ty, ii] (g: index of the Grid per
       direction, q: position, v: velocity in units of displacement, ty: type, ii: process of origin)
       z: zones with binned particles <<i, j, k, D, M1, M2, M3>> in units of 128^-nd; judged if bin; num: particles per type as counted by the Grids
     lis: entries of the particle lists written at the end (as a). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1 .. Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
PP == INSTANCE Particles WITH U <- 8, NG <- 5, FAULT <- "none"
R == T[s]
Say(p, what) == p \/ (PrintT("WHY " \o ToString(R.id) \o " round " \o ToString(k) \o ": " \o what) /\ FALSE)
M == [nd |-> R.nd, cut |-> R.cut, bc |-> R.bc]
SumOf(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
\* one particle: what stood before, and all entries with its number after
Judge(e, A) ==
  LET cs == {a \in A : a.i = e.i}
      st == PP!Settle(M, e.q) IN
  /\ Say(Cardinality(cs) <= 1, "particle " \o ToString(e.i) \o " at " \o ToString(e.q) \o " exists " \o ToString(Cardinality(cs)) \o " times")
  /\ Say(PP!State(st) = "in" => cs # {}, "particle " \o ToString(e) \o " is lost")
  /\ Say(PP!State(st) = "gone" => cs = {}, "particle " \o ToString(e) \o " is beyond an outflow boundary and still there: " \o ToString(cs))
  /\ \A a \in cs :
      /\ Say(PP!Holds(M, a.g, a.q), "particle " \o ToString(e) \o " is in the wrong Grid: " \o ToString(a))
      /\ Say(\A d \in 1 .. R.nd : PP!SamePlace(M, d, a.q[d], st[d].q), "particle " \o ToString(e) \o " is at the wrong place: " \o ToString(a))
      /\ Say(a.ty = e.ty /\ a.ii = e.ii, "type or origin of particle " \o ToString(e) \o " changed: " \o ToString(a))
      /\ Say(\A d \in 1 .. 3 : a.v[d] = (IF d <= R.nd THEN st[d].fl ELSE 1) * e.v[d], "velocity of particle " \o ToString(e) \o ": " \o ToString(a))
Mass(ty) == R.mass[ty + 1]
Bin(rd) ==
  LET A == ToSet(rd.a)
      w(a, d, z) == IF d > R.nd THEN 1 ELSE PP!WM(M, R.interp, d, PP!P(a.q[d]), z)
      wn(a, d, z) == IF d > R.nd THEN 1 ELSE PP!WN(M, R.interp, d, PP!P(a.q[d]), z)
      in(a, d) == IF d > R.nd THEN 1 ELSE FoldSet(LAMBDA z, acc : acc + PP!WM(M, R.interp, d, PP!P(a.q[d]), z), 0, 0 .. (M.cut[d][Len(M.cut[d])] - 1))
  IN
  /\ \A zi \in 1 .. Len(rd.z) :
       LET z == rd.z[zi]
           N == {a \in A : \A d \in 1 .. R.nd : w(a, d, z[d]) # 0 \/ wn(a, d, z[d]) # 0}
           W3(a, c) == (IF c = 1 THEN wn(a, 1, z[1]) ELSE w(a, 1, z[1])) * (IF c = 2 THEN wn(a, 2, z[2]) ELSE w(a, 2, z[2])) * (IF c = 3 THEN wn(a, 3, z[3]) ELSE w(a, 3, z[3])) * Mass(a.ty)
       IN Say(/\ z[4] = SumOf(N, LAMBDA a : W3(a, 0))
              /\ \A c \in 1 .. 3 : z[4 + c] = SumOf(N, LAMBDA a : W3(a, c) * a.v[c]),
              "binned particles in zone " \o ToString(z) \o ": " \o ToString(<<SumOf(N, LAMBDA a : W3(a, 0)), SumOf(N, LAMBDA a : W3(a, 1) * a.v[1]), SumOf(N, LAMBDA a : W3(a, 2) * a.v[2]), SumOf(N, LAMBDA a : W3(a, 3) * a.v[3])>>))
  /\ Say(FoldSet(LAMBDA i, acc : acc + rd.z[i][4], 0, 1 .. Len(rd.z)) = SumOf(A, LAMBDA a : in(a, 1) * in(a, 2) * in(a, 3) * Mass(a.ty)), "total of the binned mass")
\* feedback. A zone of a Grid, ghost zones included, stands for a zone of the domain: <<zone, sign of the component along the direction>>; 0: beyond an outflow boundary
Stand(d, z) == LET N == M.cut[d][Len(M.cut[d])] IN
  IF z < 0 THEN (CASE M.bc[d][1] = "p" -> <<z + N, 1>> [] M.bc[d][1] = "r" -> <<-1 - z, -1>> [] OTHER -> <<0, 0>>)
  ELSE IF z >= N THEN (CASE M.bc[d][2] = "p" -> <<z - N, 1>> [] M.bc[d][2] = "r" -> <<2 * N - 1 - z, -1>> [] OTHER -> <<0, 0>>)
  ELSE <<z, 1>>
SumW(A, z, c, f(_), pos(_, _)) ==
  LET w(a, d) == IF d > R.nd THEN 1 ELSE IF d = c THEN PP!WN(M, R.interp, d, pos(a, d), z[d]) ELSE PP!WM(M, R.interp, d, pos(a, d), z[d])
  IN SumOf(A, LAMBDA a : IF f(a) = 0 THEN 0 ELSE LET w1 == w(a, 1) IN IF w1 = 0 THEN 0 ELSE LET w2 == w(a, 2) IN IF w2 = 0 THEN 0 ELSE w1 * w2 * w(a, 3) * f(a) * Mass(a.ty))
\* predictor: all zones of all Grids, ghost zones included
Pred(rd) ==
  \A zi \in 1 .. Len(rd.fp) :
    LET z == rd.fp[zi]  st == [d \in 1 .. 3 |-> IF d > R.nd THEN <<0, 1>> ELSE Stand(d, z[d])]
        y == [d \in 1 .. 3 |-> st[d][1]]  A == ToSet(rd.a)
        pos(a, d) == PP!P(a.q[d])
        want == <<SumW(A, y, 0, LAMBDA a : 1, pos)>> \o [c \in 1 .. 3 |-> -st[c][2] * SumW(A, y, c, LAMBDA a : a.v[c], pos)]
    IN (\A d \in 1 .. 3 : st[d][2] # 0) => Say(\A c \in 1 .. 4 : z[3 + c] = want[c], "feedback (predictor) in zone " \o ToString(z) \o ": " \o ToString(want))
\* corrector: deposited around the middle of the move, which may lie outside the Grid
Corr(rd) ==
  LET A == ToSet(rd.a)  pos(a, d) == PP!P(a.q[d]) + a.o[d]
      tot(a, c, d) == IF d > R.nd THEN 1 ELSE FoldSet(LAMBDA z, acc : acc + (IF c = d THEN PP!WN(M, R.interp, d, pos(a, d), z) ELSE PP!WM(M, R.interp, d, pos(a, d), z)), 0, 0 .. (M.cut[d][Len(M.cut[d])] - 1))
  IN
  /\ \A zi \in 1 .. Len(rd.fc) :
       LET z == rd.fc[zi]  want == [c \in 1 .. 3 |-> SumW(A, z, c, LAMBDA a : a.v[c], pos)]
       IN Say(\A c \in 1 .. 3 : z[3 + c] = want[c], "feedback (corrector) in zone " \o ToString(z) \o ": " \o ToString(want))
  /\ \A c \in 1 .. 3 : Say(FoldSet(LAMBDA i, acc : acc + rd.fc[i][3 + c], 0, 1 .. Len(rd.fc)) = SumOf(A, LAMBDA a : IF a.v[c] = 0 THEN 0 ELSE tot(a, c, 1) * tot(a, c, 2) * tot(a, c, 3) * a.v[c] * Mass(a.ty)), "total of the feedback (corrector), component " \o ToString(c))
Key(a) == <<a.i, a.g, a.q, a.v, a.ty, a.ii>>
Round(n) ==
  LET rd == R.rounds[n]  prev == IF n = 1 THEN R.first ELSE R.rounds[n - 1].a IN
  /\ Say(Len(rd.a) = Cardinality(ToSet(rd.a)), "two equal entries")
  /\ Say({<<e.i, e.g>> : e \in ToSet(rd.b)} = {<<e.i, e.g>> : e \in ToSet(prev)} /\ Len(rd.b) = Len(prev), "particles changed during the move")
  /\ \A e \in ToSet(rd.b) : Judge(e, ToSet(rd.a))
  /\ Say(\A a \in ToSet(rd.a) : \E e \in ToSet(rd.b) : e.i = a.i, "a particle out of nothing")
  /\ Say(\A t \in 1 .. Len(rd.num) : rd.num[t] = Cardinality({a \in ToSet(rd.a) : a.ty = t - 1}), "particles per type")
  /\ rd.bin => Bin(rd)
  /\ (rd.bin /\ rd.fb) => Pred(rd) /\ Corr(rd)
Start == Say(\A i \in 0 .. R.n - 1 : Cardinality({a \in ToSet(R.first) : a.i = i}) = 1, "particles at the start")
Lis == LET a == R.rounds[Len(R.rounds)].a IN
       Say(Len(R.lis) = Len(a) /\ {Key(x) : x \in ToSet(R.lis)} = {Key(x) : x \in ToSet(a)}, "particle lists")
Steps == Len(R.rounds) + 2
TInit == s \in 1 .. Len(T) /\ k = 0
TNext == k < Steps /\ k' = k + 1 /\ s' = s /\ (IF k = 0 THEN Start ELSE IF k <= Len(R.rounds) THEN Round(k) ELSE R.haslis => Lis)
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Steps => TLCSet(s, TRUE)
AllAccepted == \A x \in 1 .. Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
