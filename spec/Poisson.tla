------------------------------- MODULE Poisson -------------------------------
(* Self-gravity on a periodic lattice. The potential of the current density solves the discrete Poisson equation, its ghost zones are
   periodic images, and the gas is pushed by the divergence of the gravitational stress evaluated on the faces of the zones. With a
   potential that does solve the equation for the density of this moment this is the body force -rho grad(phi) in every zone, and the
   total momentum cannot change; a stale potential, a wrong mean density or ghost zones that are no images break one or the other.

   Part 1: operators on lattices n (zones per direction), used by Trace_Poisson on recorded potentials.
   Part 2: a machine on a ring of N zones: Kick (stress divergence), Move (matter moves, mass conserved, new potential). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Vals, Mean, MaxKicks, Fault
Abs(x) == IF x < 0 THEN -x ELSE x
\* zone p (0-based) of a lattice n in the flattened sequences: i fastest
Ix(n, p) == (p[3]*n[2] + p[2])*n[1] + p[1] + 1
Zones(n) == {<<i, j, k>> : i \in 0..n[1]-1, j \in 0..n[2]-1, k \in 0..n[3]-1}
Shift(n, p, m, s) == [p EXCEPT ![m] = (@ + s + n[m]) % n[m]]
Wrap(n, p) == [m \in 1..3 |-> p[m] % n[m]]
At(phi, n, p) == phi[Ix(n, p)]
Diff2(phi, n, p, m) == At(phi, n, Shift(n, p, m, 1)) + At(phi, n, Shift(n, p, m, -1)) - 2*At(phi, n, p)
Diff1(phi, n, p, m) == At(phi, n, Shift(n, p, m, 1)) - At(phi, n, Shift(n, p, m, -1))
\* 4 x Laplacian, spacings u[m] \in {1, 2} in units of the smallest one
W(u, m) == 4 \div (u[m]*u[m])
Part(phi, n, u, p, m) == IF n[m] > 1 THEN W(u, m)*Diff2(phi, n, p, m) ELSE 0
Lap4(phi, n, u, p) == Part(phi, n, u, p, 1) + Part(phi, n, u, p, 2) + Part(phi, n, u, p, 3)
\* the equation holds in the zones of the lattice; open: the direction (0: none) that is not periodic, whose outermost zones are left out
Inside(n, p, open) == open = 0 \/ (p[open] > 0 /\ p[open] < n[open] - 1)
Solves(phi, rhs, n, u, open, tol) == \A p \in Zones(n) : Inside(n, p, open) => Abs(Lap4(phi, n, u, p) - rhs[Ix(n, p)]) <= tol
\* a Grid with its ghost zones: d its displacement (may be negative), s its size, v its values
GridZones(s) == {<<i, j, k>> : i \in 0..s[1]-1, j \in 0..s[2]-1, k \in 0..s[3]-1}
Images(phi, n, d, s, v, open) ==
  \A q \in GridZones(s) : LET p == <<q[1] + d[1], q[2] + d[2], q[3] + d[3]>>
                          IN (open = 0 \/ (p[open] >= 0 /\ p[open] < n[open])) => v[Ix(s, q)] = At(phi, n, Wrap(n, p))
\* force along m in units: rho (1e3) * potential / (2 u)
Pull(phi, rho, n, u, p, m) == IF n[m] > 1 THEN -(rho[Ix(n, p)]*Diff1(phi, n, p, m)) \div u[m] ELSE 0
-----------------------------------------------------------------------------
VARIABLES phi, rho, mom, force, kicks
vars == <<phi, rho, mom, force, kicks>>
Ring == 0..N-1
L(f, i) == f[(i+1) % N] + f[(i+N-1) % N] - 2*f[i]
\* the potential as the ghost zones show it
G(f, i) == IF i \in Ring THEN f[i] ELSE IF Fault = "ghost" THEN 0 ELSE f[(i+N) % N]
\* twice the stress on the face between i-1 and i
T2(f, i) == (G(f, i-1) - G(f, i))*(G(f, i-1) - G(f, i)) + (Mean + IF Fault = "mean" THEN 1 ELSE 0)*(G(f, i-1) + G(f, i))
RECURSIVE Sum(_, _)
Sum(f, k) == IF k < 0 THEN 0 ELSE f[k] + Sum(f, k-1)
Fields == [Ring -> Vals]
Init == /\ phi \in {f \in Fields : f[0] = 0}
        /\ rho = [i \in Ring |-> Mean + L(phi, i)]
        /\ mom = [i \in Ring |-> 0] /\ force = [i \in Ring |-> 0] /\ kicks = 0
Kick == /\ kicks < MaxKicks /\ kicks' = kicks + 1
        /\ mom' = [i \in Ring |-> mom[i] - (T2(phi, i+1) - T2(phi, i))]
        /\ force' = [i \in Ring |-> force[i] - rho[i]*(phi[(i+1) % N] - phi[(i+N-1) % N])]
        /\ UNCHANGED <<phi, rho>>
Move == /\ kicks < MaxKicks /\ kicks > 0
        /\ \E f \in {g \in Fields : g[0] = 0} :
             /\ rho' = [i \in Ring |-> Mean + L(f, i)]
             /\ phi' = IF Fault = "stale" THEN phi ELSE f
        /\ UNCHANGED <<mom, force, kicks>>
Next == Kick \/ Move
Spec == Init /\ [][Next]_vars
Mass == Sum(rho, N-1) = N*Mean
Momentum == Sum(mom, N-1) = 0
BodyForce == mom = force
Residual == \A i \in Ring : L(phi, i) = rho[i] - Mean
=============================================================================
