----------------------------- MODULE MC_ShearBox -----------------------------
EXTENDS ShearBox
ShiftsDef == {-70, -41, -33, -32, -27, -16, -11, -8, -3, -1, 0, 1, 4, 8, 13, 16, 24, 29, 32, 37, 40, 45, 83}
Tri(x) == (x * (x + 1)) \div 2
\* rows with straight and parabolic pieces long enough for the rule about smooth stretches
ExtraDef == {[j \in 1..18 |-> IF j <= 9 THEN 3*j ELSE 57 - 3*j], [j \in 1..12 |-> IF j <= 8 THEN Tri(j + 3) ELSE 7], [j \in 1..12 |-> IF j = 3 THEN 9 ELSE 2]}
=============================================================================
