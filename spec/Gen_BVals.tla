----------------------------- MODULE Gen_BVals ------------------------------
EXTENDS BVals, Json, TLC
VARIABLES scn, phase
Pick(S) == RandomElement(S)
Pair(mhd, usr) == Pick({<<4, 4>>, <<4, 4>>} \cup {<<x, y>> : x \in {1, 2, 5} \cup usr, y \in {1, 2, 5} \cup usr})
\* numbers of Grids: at least NG zones each
Divs(n) == {g \in 1..4 : n \div g >= NG}
Init == phase = 0 /\ scn = [gas |-> ""]
Shape ==
  /\ phase = 0 /\ phase' = 1
  /\ \E nd \in {Pick({1, 2, 2, 3, 3})}, gas \in {Pick({"iso", "adb", "mhd", "mhd", "mhdser"})}, usr \in {Pick({{}, {9}})} :
     \E n1 \in {Pick({8, 9, 12, 14})}, n2 \in {IF nd > 1 THEN Pick({4, 8, 9, 10}) ELSE 1}, n3 \in {IF nd > 2 THEN Pick({4, 5, 8, 9}) ELSE 1} :
     \E p1 \in {Pair(TRUE, usr)}, p2 \in {Pair(TRUE, usr)}, p3 \in {Pair(TRUE, usr)} :
     \E g1 \in {Pick(Divs(n1))}, g2 \in {IF nd > 1 THEN Pick(Divs(n2)) ELSE 1}, g3 \in {IF nd > 2 THEN Pick(Divs(n3)) ELSE 1} :
       scn' = [gas |-> gas, nd |-> nd, n |-> <<n1, n2, n3>>,
               b |-> <<p1[1], p1[2], IF nd > 1 THEN p2[1] ELSE 2, IF nd > 1 THEN p2[2] ELSE 2, IF nd > 2 THEN p3[1] ELSE 2, IF nd > 2 THEN p3[2] ELSE 2>>,
               g |-> IF gas = "mhdser" THEN <<1, 1, 1>> ELSE <<g1, g2, g3>>,
               child |-> Pick({0, 0, 1})]
Emit == /\ phase = 1 /\ phase' = 2 /\ PrintT("SCN " \o ToJson(scn)) /\ UNCHANGED scn
Next == Shape \/ Emit
Spec == Init /\ [][Next]_<<scn, phase>>
=============================================================================
