---------------------------- MODULE Gen_ShearBox ----------------------------
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS CfgG, CfgF, CfgR     \* numbers of configurations
VARIABLES scn, phase
Pick(S) == RandomElement(S)
NG == 4
\* equal Grids along y of at least `least' zones
Divs(n, least) == {g \in 1..4 : n % g = 0 /\ n \div g >= least}
Most(n, least) == CHOOSE g \in Divs(n, least) : \A h \in Divs(n, least) : h <= g
Init == phase = 0 /\ scn = [part |-> ""]
\* displacements: whole numbers of zones and of Grids, fractions, more than a period; the i-th one ends in the i-th Grid half of the time
Shift(n, g, i) == LET m == n \div g IN
  Pick({8 * Pick(0..(3*n)), Pick(0..(24*n)), Pick({8*n - 1, 8 * Pick({n, 2*n, n - 1}), Pick(1..7), 4*n}),
        8 * (n * Pick(0..2) + m * (i % g)) + Pick(0..(8*m - 1)), 8 * (m * (i % g) + Pick(0..(m - 1))), 8 * m * (i % g) + Pick(1..(8*m - 1))})
Ghost ==
  /\ phase = 0 /\ phase' = 1
  /\ \E nd \in {Pick({2, 2, 3})}, cfg \in {Pick(1..CfgG)} :
     \E n1 \in {Pick({8, 12, 16})}, n2 \in {Pick({8, 9, 12, 15, 16, 20})}, n3 \in {IF nd = 3 THEN Pick({4, 5, 8}) ELSE 1}, xz \in {IF nd = 2 THEN Pick({0, 0, 0, 1}) ELSE 0} :
     \E g1 \in {Pick({1, 2})}, g2 \in {Pick({Pick(Divs(n2, NG)), Most(n2, NG)})}, g3 \in {IF n3 = 8 THEN Pick({1, 2}) ELSE 1}, z \in {Pick({0, 1, 2})} :
       scn' = [part |-> "ghost", cfg |-> cfg, nd |-> nd, n |-> <<n1, n2, n3>>, g |-> <<g1, g2, g3>>, xz |-> xz, dx2 |-> z, q |-> Pick({0, 1}),
               seed |-> Pick(1..100000), shifts |-> [i \in 1..(IF nd = 3 THEN 3 ELSE 6) |-> IF z = 2 THEN 8 * Pick(1..(3*n2 + i)) ELSE Shift(n2, g2, i)]]
Fargo ==
  /\ phase = 0 /\ phase' = 1
  /\ \E nd \in {Pick({2, 3})}, cfg \in {Pick(1..CfgF)} :
     \E n1 \in {8}, n2 \in {Pick({8, 9, 12, 20, 20, 22, 24, 30})}, n3 \in {IF nd = 3 THEN Pick({4, 5}) ELSE 1}, off \in {Pick({0, 0, 1})} :
     \E g1 \in {Pick({1, 2})}, g2 \in {Pick(Divs(n2, 4))} :
       scn' = [part |-> "fargo", cfg |-> cfg, nd |-> nd, n |-> <<n1, n2, n3>>, g |-> <<g1, g2, 1>>, xz |-> 0, dx2 |-> Pick({0, 1}), q |-> 0, off |-> off,
               seed |-> Pick(1..100000), shifts |-> [i \in 1..3 |-> 2 * Pick({1, 2, 3, 4})]]
\* whole runs
Run ==
  /\ phase = 0 /\ phase' = 1
  /\ \E nd \in {Pick({2, 3, 3})}, cfg \in {Pick(1..CfgR)} :
     \E n1 \in {Pick({8, 12, 16})}, n2 \in {Pick({8, 12, 16})}, n3 \in {IF nd = 3 THEN Pick({4, 5, 8}) ELSE 1}, xz \in {IF nd = 2 THEN Pick({0, 0, 1}) ELSE 0} :
     \E g1 \in {Pick({1, 2})}, g2 \in {Pick(Divs(n2, NG))}, g3 \in {IF n3 = 8 THEN Pick({1, 2}) ELSE 1} :
       scn' = [part |-> "run", cfg |-> cfg, nd |-> nd, n |-> <<n1, n2, n3>>, g |-> <<g1, g2, g3>>, xz |-> xz, q |-> Pick({0, 1}), om |-> Pick({1, 3}), dif |-> Pick({0, 1, 2}),
               seed |-> Pick(1..100000), cycles |-> Pick(3..8)]
Emit == /\ phase = 1 /\ phase' = 2 /\ PrintT("SCN " \o ToJson(scn)) /\ UNCHANGED scn
Next == Ghost \/ Fargo \/ Run \/ Emit
Spec == Init /\ [][Next]_<<scn, phase>>
=============================================================================
