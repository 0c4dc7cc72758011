------------------------------ MODULE Symmetry ------------------------------
(* Signed permutations of the axes and embeddings (property C17).  A problem
   is posed in a base frame; in another frame base axis m is axis Pi[p][m],
   reversed if mir[m].  Zones, polar vectors (momentum) and axial vectors
   (magnetic field) are carried along; an axis with a single zone in the base
   frame may have several zones in the other, along which nothing varies.
   The module also holds a small dimensionally unsplit upwind scheme, for which
   TLC checks that carrying along and advancing commute. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pi == <<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>>>     \* as in harness/evolve.c
Det(p) == IF p <= 3 THEN 1 ELSE -1
Sgn(mir, m) == IF mir[m] THEN -1 ELSE 1
DetM(mir) == Sgn(mir, 1) * Sgn(mir, 2) * Sgn(mir, 3)
\* factor of component m of a polar or axial vector
Polar(p, mir, m) == Sgn(mir, m)
Axial(p, mir, m) == Det(p) * DetM(mir) * Sgn(mir, m)
\* the base zone of zone w (positions from 0) of the other frame
BaseZone(nx, p, mir, w) == [m \in 1..3 |-> IF nx[m] = 1 THEN 0 ELSE IF mir[m] THEN nx[m] - 1 - w[Pi[p][m]] ELSE w[Pi[p][m]]]
\* sizes agree
Fits(nx, p, fx) == \A m \in 1..3 : nx[m] = 1 \/ fx[Pi[p][m]] = nx[m]
Index(nx, z) == (z[3] * nx[2] + z[2]) * nx[1] + z[1] + 1
Zones(nx) == {<<i, j, k>> : i \in 0..(nx[1]-1), j \in 0..(nx[2]-1), k \in 0..(nx[3]-1)}
(* the same quantity in both frames: kind "s" (scalar), "p" (polar), "a" (axial); v[k] holds the components *)
Abs(x) == IF x < 0 THEN -x ELSE x
SameScalar(nx, p, mir, fx, a, b, tol) == \A w \in Zones(fx) : Abs(b[Index(fx, w)] - a[Index(nx, BaseZone(nx, p, mir, w))]) <= tol
SameVector(nx, p, mir, fx, kind, a, b, tol) ==
  \A m \in 1..3 : LET s == IF kind = "p" THEN Polar(p, mir, m) ELSE Axial(p, mir, m)
                  IN \A w \in Zones(fx) : Abs(b[Pi[p][m]][Index(fx, w)] - s * a[m][Index(nx, BaseZone(nx, p, mir, w))]) <= tol
-----------------------------------------------------------------------------
(* the scheme: q is advected by a uniform velocity v in a periodic box *)
CONSTANTS NX, Vals, Fault
VARIABLES q, v, nx
vars == <<q, v, nx>>
Back(n, z, m) == [z EXCEPT ![m] = (z[m] + n[m] - 1) % n[m]]
Fwd(n, z, m) == [z EXCEPT ![m] = (z[m] + 1) % n[m]]
At(n, r, z) == r[Index(n, z)]
\* flux through the lower face of z along m (nonlinear in q)
Flux(n, r, u, z, m) == LET a == At(n, r, Back(n, z, m)) b == At(n, r, z)
                       IN IF u[m] > 0 THEN a * a ELSE IF u[m] < 0 THEN -(b * b)
                          ELSE IF Fault = "bias" /\ m = 2 THEN a ELSE 0
Zn(n, i) == <<(i - 1) % n[1], ((i - 1) \div n[1]) % n[2], (i - 1) \div (n[1]*n[2])>>
Advance(n, r, u) == [i \in DOMAIN r |-> LET z == Zn(n, i)
                        D(m) == IF n[m] = 1 THEN 0 ELSE Flux(n, r, u, z, m) - Flux(n, r, u, Fwd(n, z, m), m)
                    IN r[i] + D(1) + D(2) + D(3)]
SweepOf(n, r, u, m) == [i \in DOMAIN r |-> r[i] + (IF n[m] = 1 THEN 0 ELSE Flux(n, r, u, Zn(n, i), m) - Flux(n, r, u, Fwd(n, Zn(n, i), m), m))]
Split(n, r, u) == SweepOf(n, SweepOf(n, SweepOf(n, r, u, 1), u, 2), u, 3)
Adv(n, r, u) == IF Fault = "split" THEN Split(n, r, u) ELSE Advance(n, r, u)
CarryN(n, p, e) == [a \in 1..3 |-> LET m == CHOOSE m \in 1..3 : Pi[p][m] = a IN IF n[m] = 1 THEN e ELSE n[m]]
Carry(n, p, mir, f, r) == [i \in 1..(f[1]*f[2]*f[3]) |-> At(n, r, BaseZone(n, p, mir, Zn(f, i)))]
CarryV(p, mir, u) == [a \in 1..3 |-> LET m == CHOOSE m \in 1..3 : Pi[p][m] = a IN Polar(p, mir, m) * u[m]]
Init == nx \in NX /\ q \in [1..(nx[1]*nx[2]*nx[3]) -> Vals] /\ v \in [1..3 -> {-1, 0, 1}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* (the generators of the group suffice)
GenMir == {<<FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE>>}
Equivariant == \A p \in {1, 2, 4}, mir \in GenMir, e \in {1, 2} :
                 LET f == CarryN(nx, p, e) IN
                 Fits(nx, p, f) /\ Adv(f, Carry(nx, p, mir, f, q), CarryV(p, mir, v)) = Carry(nx, p, mir, f, Adv(nx, q, v))
\* the maps form a group action on vectors: proper rotations treat polar and axial vectors alike
Proper == \A p \in 1..6, mir \in [1..3 -> BOOLEAN] : \A m \in 1..3 :
            (Det(p) * DetM(mir) = 1) <=> (Axial(p, mir, m) = Polar(p, mir, m))
=============================================================================
