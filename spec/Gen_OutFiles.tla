---------------------------- MODULE Gen_OutFiles ----------------------------
(* Random output blocks on random Meshes (Gen_RunHistory): at most one dump per format, single-variable outputs with slices and averages
   (positions in 1/16 of a root zone, on faces and between them, inside, across and outside the Domains), level and Domain selections. *)
EXTENDS Gen_RunHistory
Off == [on |-> FALSE, lo |-> 0, hi |-> 0, form |-> 0]
\* edges of the Grids of division D in direction m
Edges(sc, D, m) == {16*Lo(sc.M[1], m), 16*Hi(sc.M[1], m)} \cup
  UNION {UNION {{(16*c) \div 2^(sc.M[i].level) : c \in Cuts([sc.M[i] EXCEPT !.ng = D[q].ng[i]], m) \cup {Lo(sc.M[i], m), Hi(sc.M[i], m)}}
         : i \in 1..Len(sc.M)} : q \in 1..(IF Len(D) > 1 THEN 1 ELSE Len(D))}
Spot(n, E) == IF Pick(1..2) = 1 THEN Pick(E) ELSE IF Pick(1..3) = 1 THEN 16*Pick(0..n) ELSE IF Pick(1..8) = 1 THEN Pick({-8, 16*n + 8}) ELSE Pick(0..(16*n))
\* form: 0 a point, 1 "lo:hi", 2 "lo:", 3 ":hi", 4 ":"
Range(n, E) == One({LET lo == IF a < b THEN a ELSE b
                     hi == IF a < b THEN b ELSE a
                 IN [on |-> TRUE, form |-> f, lo |-> IF f \in {3, 4} THEN 0 ELSE lo, hi |-> IF f = 0 THEN lo ELSE IF f \in {2, 4} THEN 16*n ELSE hi]
                 : a \in {Spot(n, E)}, b \in {Spot(n, E)}, f \in {Pick({0, 0, 0, 1, 1, 2, 3, 4})}})
\* level and Domain selected: mostly none or one that exists
Lev(sc) == CASE Pick(1..10) <= 6 -> -1 [] Pick(1..5) = 1 -> Pick(0..2) [] OTHER -> sc.M[Pick(1..Len(sc.M))].level
Dom(sc) == CASE Pick(1..10) <= 7 -> -1 [] Pick(1..4) = 1 -> 1 [] OTHER -> 0
\* directions to be reduced
Which(nd) == IF nd = 1 THEN {{}} ELSE IF nd = 2 THEN {{}, {1}, {2}} ELSE {{}, {1}, {2}, {3}, {1}, {2}, {3}, {1, 2}, {1, 3}, {2, 3}}
VarBlock(sc, D, i) ==
  One({One({LET left == sc.nd - Cardinality(w)
                fm == IF left = 1 THEN {"tab"} ELSE IF left = 2 THEN {"vtk", "tab", "pgm", "ppm"} ELSE {"vtk", "tab"}
            IN One({[fmt |-> f, var |-> v, lev |-> l, dom |-> d, id |-> IF n = 1 THEN "" ELSE "q" \o ToString(i),
                     red |-> [m \in 1..3 |-> IF m \in w THEN Range(sc.M[1].nx[m], Edges(sc, D, m)) ELSE Off], fix |-> x, dat |-> t]
                     : f \in {Pick(fm)}, v \in {Pick(0..99)}, l \in {Lev(sc)}, d \in {Dom(sc)}, n \in {Pick({1, 2})},
                       x \in {Pick({0, 0, 1, 2, 3})}, t \in {Pick({0, 0, 1})}})
            : z \in {0}}) : w \in {Pick(Which(sc.nd))}})
DumpBlock(sc, f) == One({[fmt |-> f, out |-> o, lev |-> l, dom |-> d, dat |-> t] : o \in {Pick({"", "cons", "prim"})}, l \in {Lev(sc)}, d \in {Dom(sc)},
                       t \in {Pick({0, 0, 1})}})
OEmit == /\ phase = 1 /\ Len(scn.M) > scn.k /\ phase' = 3 /\ UNCHANGED <<scn, run>>
         /\ IF Legal(scn.M, scn.nd, 1, scn.bc) /\ Zones(scn.M) <= 3500
            THEN \E p1 \in {Pick(2..6)}, p2 \in {Pick(2..6)} : \E D \in {DecsP(scn, p1) \o DecsP(scn, p2)} :
                   PrintT("SCN " \o ToJson([s |-> scn, d |-> D, dumps |-> [i \in 1..3 |-> DumpBlock(scn, <<"vtk", "bin", "tab">>[i])],
                                            blocks |-> [i \in 1..9 |-> VarBlock(scn, D, i)]]))
            ELSE TRUE
ONext == RShape \/ RGrow \/ OEmit
OSpec == RInit /\ [][ONext]_<<scn, phase, run>>
=============================================================================
