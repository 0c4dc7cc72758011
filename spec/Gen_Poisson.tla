---------------------------- MODULE Gen_Poisson -----------------------------
(* Random self-gravitating problems: kind "solve" (residual, images, totals over some cycles, any decomposition), "force" (one short
   step with and without gravity; dep: the directions the state depends on). *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
VARIABLES scn, phase
NCFG == atoi(IOEnv.VF_NCFG)
Pick(S) == RandomElement(S)
Divs(n) == {g \in 1..4 : n \div g >= 4}
Init == phase = 0 /\ scn = [kind |-> ""]
Shape ==
  /\ phase = 0 /\ phase' = 1
  /\ \E nd \in {Pick({1, 2, 3, 4})}, kind \in {Pick({"solve", "solve2", "force"})}, cfg \in {Pick(1..NCFG)} :
     \E n1 \in {Pick({8, 9, 12, 14} \cup IF nd = 1 THEN {15, 24, 31} ELSE {})}, sq \in {Pick({"", "", "12", "13"})} :
     \E n2 \in {IF nd > 1 THEN (IF sq = "12" THEN n1 ELSE Pick({4, 6, 8, 9, 10})) ELSE 1},
        n3 \in {IF nd > 2 THEN (IF sq = "13" THEN n1 ELSE Pick({4, 5, 8, 9, 12})) ELSE 1} :
     \E g1 \in {Pick(Divs(n1))}, g2 \in {IF nd > 1 THEN Pick(Divs(n2)) ELSE 1}, g3 \in {IF nd > 2 THEN Pick(Divs(n3)) ELSE 1} :
     \E dep \in {Pick({{1}, {2}, {3}, {1, 2, 3}})} :
       scn' = [kind |-> kind, nd |-> IF nd = 4 THEN 3 ELSE nd, n |-> <<n1, n2, n3>>, g |-> <<g1, g2, g3>>, cfg |-> cfg, seed |-> Pick(1..9999), u |-> <<Pick(1..2), Pick(1..2), Pick(1..2)>>,
               cycles |-> Pick(1..4), jump |-> Pick({1, 2, 4}), noise |-> Pick({0, 1, 4}), fpg |-> Pick({1, 4, 16}),
               dep |-> [m \in 1..3 |-> m \in dep]]
Emit == /\ phase = 1 /\ phase' = 2 /\ PrintT("SCN " \o ToJson(scn)) /\ UNCHANGED scn
Next == Shape \/ Emit
Spec == Init /\ [][Next]_<<scn, phase>>
=============================================================================
