---------------------------- MODULE Gen_Particles ----------------------------
(* Random particle runs: Mesh, division, boundary conditions, interpolation, and moves aimed at the edges and corners of the Grids. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE phase
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
NCFG == atoi(IOEnv.VF_NCFG)
RECURSIVE Rand(_, _)
Rand(n, S) == IF n = 0 THEN <<>> ELSE <<Pick(S)>> \o Rand(n - 1, S)
BC(z) == Pick({<<"p", "p">>, <<"p", "p ">>, <<"r", "r">>, <<"o", "o">>, <<"r", "o">>, <<"o", "r">>})
\* number of Grids along the directions: at most eight
NGr(nd) == Pick(CASE nd = 1 -> {<<a, 1, 1>> : a \in 1 .. 5}
                  [] nd = 2 -> {<<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<3, 2, 1>>, <<2, 3, 1>>, <<1, 4, 1>>, <<4, 2, 1>>, <<3, 1, 1>>}
                  [] OTHER  -> {<<1, 1, 1>>, <<1, 1, 2>>, <<2, 1, 2>>, <<1, 2, 2>>, <<2, 2, 2>>, <<1, 1, 3>>, <<2, 3, 1>>, <<1, 3, 2>>})
\* a move along one direction: near an edge or corner (mode +-1), or by a distance
Off(z) == IF Pick(1 .. 3) = 1 THEN Pick(-39 .. 39) ELSE Pick({-9, -8, -1, 0, 0, 1, 3, 8})
Move1(z) == One({<<mode, IF mode = 0 THEN (IF Pick(1 .. 2) = 1 THEN 0 ELSE Pick(-39 .. 39)) ELSE Off(z), Pick({-1, 0, 0, 1})>> : mode \in {Pick({-1, 0, 0, 1})}})
Scn(z) == One({[nd |-> nd, ng |-> ng, nx |-> [k \in 1 .. 3 |-> IF k > nd THEN 1 ELSE ng[k] * 5 + x[k]], bc |-> <<BC(1), BC(2), BC(3)>>, dx |-> Rand(3, 1 .. 3), x0 |-> Rand(3, -3 .. 2),
      interp |-> Pick(1 .. 3), ty |-> Pick(1 .. 3), tshuf |-> Pick(0 .. 1), integ |-> Pick(1 .. 3), cfg |-> Pick(0 .. NCFG - 1), refl |-> Pick({1, 5}), seed |-> Pick(1 .. 1000000),
      big |-> IF Pick(1 .. 25) = 1 THEN 1 ELSE 0, n |-> n, mv |-> [r \in 1 .. 3 |-> [i \in 1 .. n |-> <<Move1(r * 100 + i), Move1(r * 100 + i), Move1(r * 100 + i)>>]]] :
      nd \in {z}, ng \in {NGr(z)}, x \in {Rand(3, 0 .. 2)}, n \in {IF z = 3 THEN 14 ELSE 18}})
Init == phase = 0
Next == phase = 0 /\ phase' = 1 /\ \E nd \in {Pick({1, 2, 2, 3})} : \E x \in {Scn(nd)} : PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_phase
=============================================================================
