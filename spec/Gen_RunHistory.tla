--------------------------- MODULE Gen_RunHistory ---------------------------
(* Random problems for C04, C09, C10, C12: a legal mesh, a few divisions of it
   among processes, a physics configuration, checkpoint cycles and the chain
   of restarts. *)
EXTENDS Gen_Mesh, IOUtils
NSmr == atoi(IOEnv.VF_NSMR)      \* configurations 1..NSmr allow mesh refinement
NCfg == atoi(IOEnv.VF_NCFG)      \* configurations 1..NCfg
ASSUME NCfg >= 1
VARIABLE run
Undivided(M) == [i \in 1..Len(M) |-> [M[i] EXCEPT !.ng = <<1,1,1>>]]
\* every edge-line of a refined Domain at which four Grids of its parent meet
Cuts(d, m) == {d.disp[m] + Part(d.nx[m], d.ng[m], k) : k \in 1..(d.ng[m] - 1)}
CornerOnCuts(M, nd) ==
  \E i, j \in 1..Len(M) : M[i].level = M[j].level + 1 /\ InsideOf(M, M[i], M[j], nd)
     /\ \E m1, m2 \in 1..nd : m1 < m2 /\ \E e1 \in {Lo(M[i], m1), Hi(M[i], m1)}, e2 \in {Lo(M[i], m2), Hi(M[i], m2)} :
          2*(e1 \div 2) = e1 /\ 2*(e2 \div 2) = e2 /\ (e1 \div 2) \in Cuts(M[j], m1) /\ (e2 \div 2) \in Cuts(M[j], m2)
\* two refined Domains so close that a coarse zone (or face) between them is corrected from both: the sum of the corrections
\* then depends on the order of arrival, in the last bit
CloseDoms(M, nd) == \E i, j \in 1..Len(M) : i < j /\ M[i].level = M[j].level /\
                      \A m \in 1..nd : Lo(M[i], m) - 2 < Hi(M[j], m) + 2 /\ Lo(M[j], m) - 2 < Hi(M[i], m) + 2
\* legal divisions among np processes
DecsP(sc, np) == One({IF Legal(C, sc.nd, np, sc.bc) /\ (\A i \in 1..Len(C) : C[i].ng[1] # 0) /\ C # Undivided(sc.M)
                      THEN <<[np |-> np, ng |-> [i \in 1..Len(C) |-> C[i].ng], corner |-> CornerOnCuts(C, sc.nd)]>> ELSE <<>> :
                      C \in {CutWell(sc.M, sc.nd, np, 8)}})
Zones(M) == LET RECURSIVE z(_)
                z(i) == IF i = 0 THEN 0 ELSE M[i].nx[1]*M[i].nx[2]*M[i].nx[3] + z(i-1)
            IN z(Len(M))
RInit == Init /\ run = 0
RShape == /\ phase = 0 /\ phase' = 1 /\ run' = 0
          /\ \E n \in {Pick(1..3)}, cfg \in {Pick(1..NCfg)} :
             \E k \in {IF cfg <= NSmr THEN Pick({0, 1, 1, 2, 2, 3}) ELSE 0} :
             \E R \in {PickRoot(n)} :
             scn' = [nd |-> n, np |-> 1, bc |-> <<Pick({TRUE, FALSE}), Pick({TRUE, FALSE}), Pick({TRUE, FALSE})>>, M |-> <<R>>,
                     k |-> k, u |-> <<Pick({1, 2}), Pick({1, 2}), Pick({1, 2})>>, x0 |-> <<Pick({-3, 0, 5}), Pick({-3, 0, 5}), Pick({-3, 0, 5})>>,
                     cfg |-> cfg, seed |-> Pick(1..100000), cycles |-> Pick(4..7), ckpt |-> <<Pick(0..2), Pick(1..3)>>,
                     bcv |-> <<Pick({1,2}), Pick({1,2}), Pick({1,2}), Pick({1,2}), Pick({1,2}), Pick({1,2})>>,
                     jump |-> Pick({1, 1, 2, 3}), x |-> <<Pick(0..99), Pick(0..99), Pick(0..99), Pick(0..99)>>]
RGrow == Grow /\ UNCHANGED run
REmit == /\ phase = 1 /\ Len(scn.M) > scn.k /\ phase' = 3 /\ UNCHANGED <<scn, run>>
         /\ IF Legal(scn.M, scn.nd, 1, scn.bc) /\ Zones(scn.M) <= 9000
            THEN \E p1 \in {Pick(2..6)}, p2 \in {Pick(2..6)} : \E D \in {DecsP(scn, p1) \o DecsP(scn, p2)} :
                   PrintT("SCN " \o ToJson([s |-> scn, d |-> D, close |-> CloseDoms(scn.M, scn.nd)]))
            ELSE TRUE
RNext == RShape \/ RGrow \/ REmit
RSpec == RInit /\ [][RNext]_<<scn, phase, run>>
=============================================================================
