---------------------------- MODULE Trace_Poisson ---------------------------
(* Validates recorded self-gravitating runs of the real code.
   record: [id, status, kind, n, u, open, tol, mtol, snaps, force]
     snaps: per cycle [phi, rhs, grids, tot]: potential and 4 x right-hand side over the lattice (integers in one unit), the Grids with their
            ghost zones [d, s, v], totals of mass and momentum minus the initial ones
     force: [] or one record [phi, rho, acc, pow, mom, ftol, etol]: potential and density of the start of the step, change of the momenta (acc[m]) and
            of the energy (pow; <<>> if there is none) per time due to gravity, in the unit of Pull; mom[m]: momenta / density in 1e3 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
P == INSTANCE Poisson WITH N <- 1, Vals <- {}, Mean <- 0, MaxKicks <- 0, Fault <- "none", phi <- 0, rho <- 0, mom <- 0, force <- 0, kicks <- 0
R == T[s]
OkSnap(x) == /\ P!Solves(x.phi, x.rhs, R.n, R.u, R.open, R.tol)
             /\ \A i \in 1..Len(x.grids) : P!Images(x.phi, R.n, x.grids[i].d, x.grids[i].s, x.grids[i].v, R.open)
             /\ \A i \in 1..Len(x.tot) : P!Abs(x.tot[i]) <= R.mtol
OkForce(f) == /\ \A m \in 1..3 : \A p \in P!Zones(R.n) : P!Abs(f.acc[m][P!Ix(R.n, p)] - P!Pull(f.phi, f.rho, R.n, R.u, p, m)) <= f.ftol
              /\ f.pow # <<>> => \A p \in P!Zones(R.n) : LET i == P!Ix(R.n, p) IN
                   P!Abs(f.pow[i] - (f.vel[1][i]*(P!Pull(f.phi, f.rho, R.n, R.u, p, 1) \div 1000) + f.vel[2][i]*(P!Pull(f.phi, f.rho, R.n, R.u, p, 2) \div 1000)
                                     + f.vel[3][i]*(P!Pull(f.phi, f.rho, R.n, R.u, p, 3) \div 1000))) <= f.etol
Steps == Len(R.snaps) + Len(R.force)
TInit == s \in 1..Len(T) /\ k = 0 /\ R.status = 0
TNext == k < Steps /\ k' = k + 1 /\ s' = s /\ IF k' <= Len(R.snaps) THEN OkSnap(R.snaps[k']) ELSE OkForce(R.force[k' - Len(R.snaps)])
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Steps => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
