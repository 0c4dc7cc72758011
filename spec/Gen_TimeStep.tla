---------------------------- MODULE Gen_TimeStep ----------------------------
(* Generates driver scenarios for the real code: mesh shape, process count,
   end time, and for every cycle which zones carry which state.             *)
EXTENDS TimeStep, Json
CONSTANTS NCyc
VARIABLES scn, phase

Gas == {"iso", "adb", "mhdiso", "mhdadb"}
\* field/sound-speed combinations for which every fast speed is an integer
Combos(g) ==
  IF g \in {"iso"} THEN {[a2 |-> 1, b |-> <<0,0,0>>]}
  ELSE IF g = "adb" THEN {[a2 |-> s*s, b |-> <<0,0,0>>] : s \in {1, 2, 3}}
  ELSE IF g = "mhdiso" THEN {[a2 |-> 1, b |-> <<0,0,0>>]}
  ELSE {[a2 |-> 1, b |-> <<0,0,0>>]} \cup
       {[a2 |-> 9, b |-> [m \in 1..3 |-> IF m = p THEN 4 ELSE 0]] : p \in 1..3} \cup
       {[a2 |-> 16, b |-> [m \in 1..3 |-> IF m = p THEN 3 ELSE 0]] : p \in 1..3} \cup
       {[a2 |-> 64, b |-> [m \in 1..3 |-> IF m = p THEN 6 ELSE 0]] : p \in 1..3}
Pick(S) == RandomElement(S)
Pow == {8, 16, 32, 64}
\* zone state with power-of-two speed in each direction
MkZone(g, lv, ds, kind) ==
  LET co == Pick(Combos(g))
      d  == IF g \in {"iso","mhdiso"} THEN Pick({1,2}) ELSE 4
      r  == IF d = 4 THEN 2 ELSE 1                        \* B scales with sqrt(d)
      sg == Pick({-1, 1})
      half == Pick({TRUE, FALSE})
      bf == [m \in 1..3 |-> sg * r * co.b[m]]
      bc == [m \in 1..3 |-> IF half THEN (bf[m] \div 2) ELSE bf[m]]
      z0 == [d |-> d, v |-> <<0,0,0>>, a2 |-> co.a2, c |-> bc, f |-> bf]
      main == Pick(1..3)
      v  == [m \in 1..3 |-> LET s == Fast(z0, m)
                                p == IF m = main THEN Pick(Pow) ELSE 16
                                q == IF p < s THEN 16 ELSE p
                            IN Pick({-1, 1}) * (IF q < s THEN 0 ELSE q - s)]
  IN [z0 EXCEPT !.v = v]
\* position of a zone as fractions of the domain in 1/16, and a level
MkPlace(i) == [lev |-> Pick(0..2), dom |-> Pick(0..1), x |-> [m \in 1..3 |-> Pick(0..15)]]

Init == /\ StartWith(1, 1)
        /\ phase = 0
        /\ scn = [gas |-> "", ndim |-> 0, np |-> 0, nlev |-> 0, tl |-> 0, u |-> <<1,1,1>>, cn |-> 4, st |-> <<>>]
Shape == /\ phase = 0 /\ phase' = 1
         /\ \E g \in Gas, n \in 1..3, p \in 1..4, l \in 1..3 :
              scn' = [scn EXCEPT !.gas = g, !.ndim = n, !.np = p, !.nlev = l, !.tl = Pick({7, 33, 100, 1000, 4000, 9000, 20000}),
                     !.u = [m \in 1..3 |-> Pick({1, 2, 4})], !.cn = Pick({2, 3, 4})]
         /\ UNCHANGED vars
Add == /\ phase \in 1..NCyc /\ phase' = phase + 1
       /\ LET k == Pick(0..2) IN
          scn' = [scn EXCEPT !.st = Append(@, [i \in 1..k |-> [p |-> MkPlace(i), z |-> MkZone(scn.gas, 0, 0, 0)]])]
       /\ UNCHANGED vars
Emit == /\ phase = NCyc + 1 /\ phase' = NCyc + 2
        /\ PrintT("SCN " \o ToJson(scn))
        /\ UNCHANGED <<vars, scn>>
Next == Shape \/ Add \/ Emit
Spec == Init /\ [][Next]_<<vars, scn, phase>>
=============================================================================
