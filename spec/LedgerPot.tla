----------------------------- MODULE LedgerPot -----------------------------
(* A closed row of zones in a static gravitational potential (integrate_*.c,
   source terms; property C11).  Masses move by the fluxes f through the faces,
   energies by the fluxes g and by the work of the potential: the mass that
   passes a face does work against the difference of the potential between the
   face and the centre of the zone.  The energy including that in the potential
   is kept, whatever the fluxes and the potential are.  In a uniform field the
   momentum grows by the mass of the zone at the middle of the step times the
   acceleration; the middle of the step conserves mass as well, so that the
   total grows as mass x acceleration x time. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, MaxStep, Fluxes, Pots, Acc,
          Kind,         \* "periodic", "wall"
          Fault         \* "none", "centre" (the work taken from the centres of the neighbours), "start" (the energy of the mass before the step)
VARIABLES d, e, p, pc, pf, step
vars == <<d, e, p, pc, pf, step>>
Zones == 0..(N-1)
Faces == 0..N
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Init == /\ d = [z \in Zones |-> 1 + (z % 2)] /\ e = [z \in Zones |-> 3] /\ p = [z \in Zones |-> 0] /\ step = 0
        /\ pc \in [Zones -> Pots] /\ pf \in [Faces -> Pots] /\ (Kind = "periodic" => pf[0] = pf[N])
Closed(f) == IF Kind = "periodic" THEN f[0] = f[N] ELSE f[0] = 0 /\ f[N] = 0
Prev(z) == (z + N - 1) % N
Step == /\ step < MaxStep /\ step' = step + 1 /\ UNCHANGED <<pc, pf>>
        /\ \E f \in {x \in [Faces -> Fluxes] : Closed(x)}, h \in {x \in [Faces -> Fluxes] : Closed(x)} :      \* h: fluxes of the half step
             /\ d' = [z \in Zones |-> d[z] + f[z] - f[z+1]]
             /\ e' = [z \in Zones |-> e[z] - (IF Fault = "centre" THEN f[z] * (pc[z] - pc[Prev(z)])
                                              ELSE IF Fault = "start" THEN 0
                                              ELSE f[z] * (pc[z] - pf[z]) + f[z+1] * (pf[z+1] - pc[z]))]
             /\ p' = [z \in Zones |-> p[z] + Acc * (d[z] + h[z] - h[z+1])]
Spec == Init /\ [][Step]_vars
Energy == Sum(e, Zones) + Sum([z \in Zones |-> d[z] * pc[z]], Zones)
Start == 3 * N + Sum([z \in Zones |-> (1 + (z % 2)) * pc[z]], Zones)
EnergyKept == Energy = Start
MassKept == Sum(d, Zones) = Sum([z \in Zones |-> 1 + (z % 2)], Zones)
Momentum == Sum(p, Zones) = Acc * step * Sum([z \in Zones |-> 1 + (z % 2)], Zones)
=============================================================================
