------------------------------- MODULE Ledger -------------------------------
(* Conservation on a composite mesh (integrate_*.c, smr.c: RestrictCorrect;
   properties C10, C11).  One direction of the mesh: a row of N coarse zones,
   periodic, open or between walls, part of it covered by a finer level, part
   of which may be covered by a still finer one.  The content of a zone changes
   by the fluxes through its two faces, whatever these are (each level computes
   its own; at a wall there is none).  After every step each covered zone takes
   the content of the finer zones on it, and each uncovered zone next to a
   finer level replaces its own flux by that of the finer level.  The total
   over uncovered zones then changes by the fluxes through the physical
   boundaries only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Refined, MaxStep, Fluxes,
          Kind,         \* "periodic", "wall", "open"
          Fault         \* "none", "nocorrect", "norestrict"
(* Refined: sequence of <<lo, hi>>: level l covers the fine zones lo..hi-1 (in zones of level l) *)
L == Len(Refined)
Lev == 0..L
Z(l) == IF l = 0 THEN 0..(N-1) ELSE Refined[l][1]..(Refined[l][2] - 1)
F(l) == IF l = 0 THEN 0..N ELSE Refined[l][1]..Refined[l][2]       \* face f is the lower face of zone f
Covered(l, z) == l < L /\ 2*z \in Z(l+1)
\* face f of level l lies on the edge of level l+1
OnEdge(l, f) == l < L /\ (2*f = Refined[l+1][1] \/ 2*f = Refined[l+1][2])
VARIABLES q,            \* q[l][z] content
          out,          \* content that has left through the physical boundaries
          step
vars == <<q, out, step>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Total(r) == LET RECURSIVE T(_)
                T(l) == Sum(r[l], {z \in Z(l) : ~Covered(l, z)}) + (IF l = L THEN 0 ELSE T(l+1))
            IN T(0)
\* restriction, finest level first
RECURSIVE Restrict(_, _)
Restrict(r, l) == IF l < 0 THEN r
                  ELSE Restrict([r EXCEPT ![l] = [z \in Z(l) |-> IF Covered(l, z) THEN r[l+1][2*z] + r[l+1][2*z+1] ELSE r[l][z]]], l - 1)
Start == [l \in Lev |-> [z \in Z(l) |-> 2^(L - l)]]
Init == q = Start /\ out = 0 /\ step = 0
PhysLo(l) == 0 \in F(l)
PhysHi(l) == (N * 2^l) \in F(l)
Allowed(f) == /\ Kind = "periodic" => f[0][0] = f[0][N] /\ \A l \in 1..L : ~PhysLo(l) /\ ~PhysHi(l)
              /\ Kind = "wall" => \A l \in Lev : (PhysLo(l) => f[l][0] = 0) /\ (PhysHi(l) => f[l][N * 2^l] = 0)
\* the flux a level uses in the end: that of the finer level on its edge
RECURSIVE Eff(_, _, _)
Eff(f, l, x) == IF OnEdge(l, x) /\ Fault # "nocorrect" THEN Eff(f, l+1, 2*x) ELSE f[l][x]
Step == /\ step < MaxStep /\ step' = step + 1
        /\ \E g \in [{p \in Lev \X (0..(N * 2^L)) : p[2] \in F(p[1])} -> Fluxes] :
             LET f == [l \in Lev |-> [x \in F(l) |-> g[<<l, x>>]]] IN
             /\ Allowed(f)
             /\ LET r == [l \in Lev |-> [z \in Z(l) |-> q[l][z] + (IF Covered(l, z) THEN f[l][z] - f[l][z+1] ELSE Eff(f, l, z) - Eff(f, l, z+1))]]
                IN q' = IF Fault = "norestrict" THEN r ELSE Restrict(r, L - 1)
             /\ out' = IF Kind = "periodic" THEN out
                       ELSE out + Eff(f, 0, N) - Eff(f, 0, 0)
Next == Step
Spec == Init /\ [][Next]_vars
Conserved == Total(q) + out = Total(Start)
Closed == Kind \in {"periodic", "wall"} => Total(q) = Total(Start)
Consistent == \A l \in Lev : \A z \in Z(l) : Covered(l, z) => q[l][z] = q[l+1][2*z] + q[l+1][2*z+1]
=============================================================================
