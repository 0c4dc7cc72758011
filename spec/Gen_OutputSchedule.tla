------------------------- MODULE Gen_OutputSchedule -------------------------
(* Random output configurations, step sequences and restart chains.          *)
EXTENDS OutputSchedule, Json
CONSTANTS NRuns
VARIABLES k
Pick(S) == RandomElement(S)
Kind == {"vtk", "bin", "tab", "vtk1", "vtk1", "pgm1", "ppm1", "pdf1", "tab1", "hst", "probe", "probe"}
Blk(i) == [kind |-> Pick(Kind), dt |-> Pick({8, 37, 64, 100, 128, 250, 256, 333, 512, 700, 1500}),
           t0 |-> Pick({-1, -1, -1, 0, 50, 400, 1024}), num0 |-> Pick({0, 0, 0, 3, 9998}), gap |-> Pick({0, 0, 0, 1})]
Speed(i) == Pick({1, 1, 2, 4, 4, 8, 16, 32})
Run(i) == [steps |-> [j \in 1..14 |-> Speed(j)], nlim |-> Pick({2, 4, 6, 9, 12}), tl |-> Pick({300, 900, 1700, 3000, 9000}),
           pick |-> Pick(0..9), ovr |-> Pick({0, 0, 1, 2, 3}), odt |-> Pick({90, 160, 1000})]
Init == k = 0
Next == /\ k = 0 /\ k' = 1
        /\ PrintT("SCN " \o ToJson([blocks |-> [i \in 1..Pick({2, 4, 6, 9, 13}) |-> Blk(i)], rst |-> Pick({0, 1, 1, 1}),
              rdt |-> Pick({30, 100, 256, 600}), rpos |-> Pick(1..4), cut |-> Pick({0, 0, 0, 1, 2}), runs |-> [i \in 1..NRuns |-> Run(i)]]))
Spec == Init /\ [][Next]_k
=============================================================================
