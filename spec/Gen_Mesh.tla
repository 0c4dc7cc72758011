------------------------------ MODULE Gen_Mesh ------------------------------
(* Random meshes, legal and illegal, for the real code. *)
EXTENDS Mesh, Json, Randomization
VARIABLES scn, phase
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
RootSizes(n) == IF n = 3 THEN {8, 10, 12, 16, 20} ELSE {8, 11, 12, 16, 20, 24, 28, 32, 40}
One(S) == CHOOSE y \in S : TRUE
\* (random picks are bound by set constructors over singletons, so that each is drawn once)
PickRoot(n) == [level |-> 0, nx |-> <<Pick(RootSizes(n)), IF n > 1 THEN Pick(RootSizes(n)) ELSE 1, IF n > 2 THEN Pick(RootSizes(n)) ELSE 1>>,
                disp |-> <<0,0,0>>, ng |-> <<1,1,1>>]
\* an interval in direction m for a child of domain p on level l
GoodSpans(R, p, l, m, per) ==
  LET w == Pow2(l) IN
  {s \in {<<w*a, w*b>> : a \in 0..R.nx[m], b \in 0..R.nx[m]} :
     /\ s[1] < s[2]
     /\ (s[1] = 2*Lo(p, m) /\ Lo(p, m) = 0) \/ s[1] - 2*Lo(p, m) >= NGhost
     /\ (s[2] = 2*Hi(p, m) /\ Hi(p, m) = R.nx[m]*Pow2(l-1)) \/ 2*Hi(p, m) - s[2] >= NGhost
     /\ per => (s[1] = 0 <=> s[2] = R.nx[m]*w)
     /\ s[2] - s[1] >= 4 }
AnySpan(R, p, l, m) == One({<<a, a + w>> : a \in {Pick((-2)..(2*R.nx[m]*Pow2(l-1)))}, w \in {Pick(1..12)}})
NearSpan(R, p, l, m) == One({IF a < b THEN <<a, b>> ELSE <<b - Pow2(l), a + Pow2(l)>> :
                               a \in {2*Lo(p, m) + Pick({0, Pow2(l), 2*Pow2(l), Pow2(l) - 1})},
                               b \in {2*Hi(p, m) - Pick({0, Pow2(l), 2*Pow2(l), 1, -Pow2(l)})}})
PickSpan(R, p, l, m, per, q) ==
  LET S == GoodSpans(R, p, l, m, per) IN
  IF S # {} /\ q <= 96 THEN Pick(S) ELSE IF q % 2 = 0 THEN NearSpan(R, p, l, m) ELSE AnySpan(R, p, l, m)
PickChild(R, p, n, bc) ==
  One({[level |-> p.level + 1, nx |-> <<s1[2] - s1[1], s2[2] - s2[1], s3[2] - s3[1]>>, disp |-> <<s1[1], s2[1], s3[1]>>, ng |-> <<1,1,1>>] :
        s1 \in {PickSpan(R, p, p.level + 1, 1, bc[1], Pick(1..100))},
        s2 \in {IF n > 1 THEN PickSpan(R, p, p.level + 1, 2, bc[2], Pick(1..100)) ELSE <<0, 1>>},
        s3 \in {IF n > 2 THEN PickSpan(R, p, p.level + 1, 3, bc[3], Pick(1..100)) ELSE <<0, 1>>}})
\* a child that stays clear of the Domains already on its level, if one turns up in a few tries
Clear(MM, c, n) == \A i \in 1..Len(MM) : MM[i].level = c.level => Apart(MM[i], c, n)
RECURSIVE PickClear(_, _, _, _, _)
PickClear(MM, n, bc, S, k) ==
  One({IF k = 0 \/ Clear(MM, c, n) THEN c ELSE PickClear(MM, n, bc, S, k - 1) :
        c \in {One({PickChild(MM[1], q, n, bc) : q \in {Pick(S)}})}})
\* divisions
AllNg(n, np) == {g \in (1..np) \X (1..(IF n > 1 THEN np ELSE 1)) \X (1..(IF n > 2 THEN np ELSE 1)) : g[1]*g[2]*g[3] <= np}
AutoSafe(d, n, np) == \A m \in 1..n : d.nx[m] % (2*np) = 0 /\ d.nx[m] \div np >= NGhost
OkNg(d, n, np) == {g \in AllNg(n, np) : DivisionOk([d EXCEPT !.ng = g], n, np)}
                  \cup (IF AutoSafe(d, n, np) THEN {<<0,0,0>>} ELSE {})
PickNg(d, n, np, q) == LET S == OkNg(d, n, np) IN IF S # {} /\ q <= 95 THEN Pick(S) ELSE Pick(AllNg(n, np))
\* divide the Domains from number i on; the last one so that the total is a multiple of np if possible
RECURSIVE CutFrom(_, _, _, _)
CutFrom(MM, n, np, i) ==
  IF i > Len(MM) THEN MM
  ELSE LET S == IF i < Len(MM) THEN {} ELSE {g \in OkNg(MM[i], n, np) : SumGrids([MM EXCEPT ![i].ng = g], np, i) % np = 0}
       IN One({CutFrom([MM EXCEPT ![i].ng = g], n, np, i + 1) :
                 g \in {IF S # {} THEN Pick(S) ELSE PickNg(MM[i], n, np, Pick(1..100))}})
RECURSIVE CutWell(_, _, _, _)
CutWell(MM, n, np, k) == One({IF k = 0 \/ SumGrids(C, np, Len(C)) % np = 0 THEN C ELSE CutWell(MM, n, np, k - 1) : C \in {CutFrom(MM, n, np, 1)}})

Init == phase = 0 /\ scn = [nd |-> 0, np |-> 0, bc |-> <<FALSE,FALSE,FALSE>>, M |-> <<>>, k |-> 0, u |-> <<1,1,1>>, x0 |-> <<0,0,0>>]
Shape == /\ phase = 0 /\ phase' = 1
         /\ \E dummy \in {1} :
            \E n \in {Pick(1..3)}, k \in {Pick({0, 1, 2, 3, 4})} :
            \E R \in {PickRoot(n)} :
            scn' = [nd |-> n, np |-> Pick(1..6), bc |-> <<Pick({TRUE, FALSE}), Pick({TRUE, FALSE}), Pick({TRUE, FALSE})>>, M |-> <<R>>,
                    k |-> k, u |-> <<Pick({1, 2}), Pick({1, 2}), Pick({1, 2})>>, x0 |-> <<Pick({-3, 0, 5}), Pick({-3, 0, 5}), Pick({-3, 0, 5})>>]
Grow == /\ phase = 1 /\ Len(scn.M) <= scn.k
        /\ \E dummy \in {1} :
             LET S == {scn.M[i] : i \in {j \in 1..Len(scn.M) : scn.M[j].level < 2}}
             IN \E c \in {PickClear(scn.M, scn.nd, scn.bc, S, IF Chance(85) THEN 8 ELSE 0)} : scn' = [scn EXCEPT !.M = Append(@, c)]
        /\ phase' = phase
Cut == /\ phase = 1 /\ Len(scn.M) > scn.k /\ phase' = 2
       /\ \E C \in {CutWell(scn.M, scn.nd, scn.np, IF Chance(90) THEN 6 ELSE 0)} : scn' = [scn EXCEPT !.M = C]
Emit == /\ phase = 2 /\ phase' = 3 /\ PrintT("SCN " \o ToJson(scn)) /\ UNCHANGED scn
Next == Shape \/ Grow \/ Cut \/ Emit
Spec == Init /\ [][Next]_<<scn, phase>>
=============================================================================
