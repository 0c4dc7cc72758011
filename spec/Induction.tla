------------------------------ MODULE Induction -----------------------------
(* Constrained transport on a composite mesh (integrate_*.c, smr.c; property
   C12).  A plane of N x N coarse zones, periodic, with a refined square.  The
   magnetic flux through each face changes by the difference of the EMFs at its
   two ends, whatever these are (each level computes its own).  After each
   step a coarse face on or inside the refined square takes the flux of the
   fine faces on it, and coarse faces that end on the edge of the square use
   the EMF of the finer level there.  Then no zone of any level ever gets a
   net flux.  Fluxes and EMFs are integers; everything is linear, so that unit
   EMFs at single nodes generate all behaviours. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, A, B,      \* coarse zones A..B-1 in both directions are refined
          MaxStep,
          Fault         \* "none", "noemf", "norestrict", "wallreset"
C == 0..(N-1)
Md(i) == (i + N) % N
FN == (2*A)..(2*B)                       \* fine nodes
FZ == (2*A)..(2*B - 1)                   \* fine zones
VARIABLES x, y,         \* coarse fluxes: x[i,j] through the lower-x face of zone <<i,j>>, y likewise
          fx, fy,       \* fine: fx on FN \X FZ, fy on FZ \X FN
          step
vars == <<x, y, fx, fy, step>>
Init == /\ x = [p \in C \X C |-> 0] /\ y = [p \in C \X C |-> 0]
        /\ fx = [p \in FN \X FZ |-> 0] /\ fy = [p \in FZ \X FN |-> 0] /\ step = 0
InSq(i, j) == i \in A..(B-1) /\ j \in A..(B-1)
\* coarse faces on or inside the square
Xin(i, j) == i \in A..B /\ j \in A..(B-1)
Yin(i, j) == j \in A..B /\ i \in A..(B-1)
\* coarse nodes on the edge of the square
Node(i, j) == i \in A..B /\ j \in A..B /\ (i \in {A, B} \/ j \in {A, B})
Unit(S) == {[p \in S |-> IF p = q THEN v ELSE 0] : q \in S, v \in {1, -1}} \union {[p \in S |-> 0]}
Step == /\ step < MaxStep /\ step' = step + 1
        /\ \E e \in Unit(C \X C), f \in Unit(FN \X FN) :
           LET E(i, j) == IF Node(i, j) /\ Fault # "noemf" THEN f[<<2*i, 2*j>>] ELSE e[<<i, j>>]
               gx == [p \in FN \X FZ |-> fx[p] + f[<<p[1], p[2] + 1>>] - f[p]]
               gy == [p \in FZ \X FN |-> fy[p] - f[<<p[1] + 1, p[2]>>] + f[p]]
           IN /\ fx' = gx /\ fy' = gy
              /\ x' = [p \in C \X C |-> IF Xin(p[1], p[2]) /\ Fault # "norestrict" THEN gx[<<2*p[1], 2*p[2]>>] + gx[<<2*p[1], 2*p[2] + 1>>]
                                        ELSE IF Fault = "wallreset" /\ p[1] = 0 THEN 0
                                        ELSE x[p] + E(p[1], Md(p[2] + 1)) - E(p[1], p[2])]
              /\ y' = [p \in C \X C |-> IF Yin(p[1], p[2]) /\ Fault # "norestrict" THEN gy[<<2*p[1], 2*p[2]>>] + gy[<<2*p[1] + 1, 2*p[2]>>]
                                        ELSE y[p] - E(Md(p[1] + 1), p[2]) + E(p[1], p[2])]
Next == Step
Spec == Init /\ [][Next]_vars
DivFree == /\ \A i, j \in C : x[<<Md(i+1), j>>] - x[<<i, j>>] + y[<<i, Md(j+1)>>] - y[<<i, j>>] = 0
           /\ \A i, j \in FZ : fx[<<i+1, j>>] - fx[<<i, j>>] + fy[<<i, j+1>>] - fy[<<i, j>>] = 0
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET z == CHOOSE z \in S : TRUE IN f[z] + Sum(f, S \ {z})
\* the net flux through the periodic box does not change
NetFlux == /\ \A i \in C : Sum([j \in C |-> x[<<i, j>>]], C) = 0
           /\ \A j \in C : Sum([i \in C |-> y[<<i, j>>]], C) = 0
Consistent == \A i, j \in C : /\ Xin(i, j) => x[<<i, j>>] = fx[<<2*i, 2*j>>] + fx[<<2*i, 2*j+1>>]
                              /\ Yin(i, j) => y[<<i, j>>] = fy[<<2*i, 2*j>>] + fy[<<2*i+1, 2*j>>]
=============================================================================
