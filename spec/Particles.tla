------------------------------ MODULE Particles ------------------------------
(* Particles on a divided Mesh: where a particle that has moved belongs after the boundary conditions, the exchange of particles between Grids
   (direction by direction, by copies that carry a tag, particles outside their Grid deleted at the end), and the binning of particles to zones.

   Positions along a direction are integers q = 4p + e: p in units of 1/U zone from the lower edge of the domain, e in -1..1 a deviation of rounding
   size. A Mesh is [nd, cut, bc]: cut[k] the Grid edges in zones (0 first, the number of zones last), bc[k] = <<lower, upper>> in {"p","r","o"}
   (periodic, reflecting, outflow). An outflow boundary keeps particles up to NG-1 zones beyond it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS U, NG

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL LastOf(s) == s[Len(s)]
P(q) == (q + 2) \div 4
Face(z) == 4 * U * z
Top(m, k) == Face(LastOf(m.cut[k]))
Dims(m) == 1 .. m.nd
GridsOf(m) == [Dims(m) -> 1 .. 8]       \* Grid indices per direction
NGrids(m, k) == Len(m.cut[k]) - 1
Lo(m, k, g) == Face(m.cut[k][g])
Hi(m, k, g) == Face(m.cut[k][g + 1])
\* the range a Grid keeps: extended at an outflow boundary
KeepLo(m, k, g) == IF g = 1 /\ m.bc[k][1] = "o" THEN -Face(NG - 1) ELSE Lo(m, k, g)
KeepHi(m, k, g) == IF g = NGrids(m, k) /\ m.bc[k][2] = "o" THEN Top(m, k) + Face(NG - 1) ELSE Hi(m, k, g)
Owner(m, k, q) == IF q < 0 THEN 1 ELSE IF q >= Top(m, k) THEN NGrids(m, k) ELSE CHOOSE g \in 1 .. NGrids(m, k) : Lo(m, k, g) <= q /\ q < Hi(m, k, g)

-----------------------------------------------------------------------------
(* The oracle: [st, q, fl] along one direction. "in": inside the domain; "edge": beyond an outflow boundary but still kept, or not; "gone". *)
Settle1(m, k, q) ==
  LET L == Top(m, k)  B == Face(NG - 1) IN
  IF q < 0
  THEN CASE m.bc[k][1] = "p" -> [st |-> "in", q |-> q + L, fl |-> 1]
         [] m.bc[k][1] = "r" -> [st |-> "in", q |-> -q, fl |-> -1]
         [] OTHER -> [st |-> IF q < -B THEN "gone" ELSE "edge", q |-> q, fl |-> 1]
  ELSE IF q >= L
  THEN CASE m.bc[k][2] = "p" -> [st |-> "in", q |-> q - L, fl |-> 1]
         [] m.bc[k][2] = "r" -> [st |-> "in", q |-> IF q = L THEN L - 1 ELSE 2 * L - q, fl |-> -1]
         [] OTHER -> [st |-> IF q > L + B THEN "gone" ELSE "edge", q |-> q, fl |-> 1]
  ELSE [st |-> "in", q |-> q, fl |-> 1]
Settle(m, q) == [k \in Dims(m) |-> Settle1(m, k, q[k])]
State(s) == IF \E k \in DOMAIN s : s[k].st = "gone" THEN "gone" ELSE IF \E k \in DOMAIN s : s[k].st = "edge" THEN "edge" ELSE "in"
\* same place: up to rounding; a particle on a periodic edge may be on either side
SamePlace(m, k, a, b) == \/ P(a) = P(b)
                         \/ m.bc[k][1] = "p" /\ Abs(P(a) - P(b)) = U * LastOf(m.cut[k]) /\ (P(a) = 0 \/ P(b) = 0)
\* Grid g (per direction) holds a particle at q
Holds(m, g, q) == \A k \in Dims(m) : IF q[k] < 0 THEN g[k] = 1 /\ m.bc[k][1] = "o"
                                     ELSE IF q[k] >= Top(m, k) THEN g[k] = NGrids(m, k) /\ m.bc[k][2] = "o"
                                     ELSE Lo(m, k, g[k]) <= q[k] /\ q[k] < Hi(m, k, g[k])
\* copies: a sequence or set of [g, q, fl] of one particle that was at q before the boundary conditions
Placed(m, q, cs) ==
  LET s == Settle(m, q) IN
  /\ Cardinality(cs) <= 1
  /\ State(s) = "in" => cs # {}
  /\ State(s) = "gone" => cs = {}
  /\ \A c \in cs : Holds(m, c.g, c.q) /\ \A k \in Dims(m) : SamePlace(m, k, c.q[k], s[k].q) /\ c.fl[k] = s[k].fl

-----------------------------------------------------------------------------
(* The exchange. A copy is [n, g, q, fl, tag]; tag = <<"grid">>, <<"cross">> (has left its Grid), <<"lo", k>> or <<"hi", k>> (came over the lower or
   upper side of another Grid, or its own, in direction k). n numbers the copies. Rounding moves a shifted particle by one unit either way; what then
   lies outside the Grid it entered is put on its edge ("clamp"). *)
CONSTANT FAULT
Outside(m, c) == \E k \in Dims(m) : c.q[k] < KeepLo(m, k, c.g[k]) \/ c.q[k] >= KeepHi(m, k, c.g[k])
Start(m, g, q) == LET c == [n |-> 1, g |-> g, q |-> q, fl |-> [k \in Dims(m) |-> 1], tag |-> <<"grid">>]
                  IN {[c EXCEPT !.tag = IF Outside(m, c) THEN <<"cross">> ELSE <<"grid">>]}
Clamp(m, k, c, up) == IF FAULT = "noclamp" THEN c
                      ELSE IF up /\ c.q[k] >= KeepHi(m, k, c.g[k]) THEN [c EXCEPT !.q[k] = KeepHi(m, k, c.g[k]) - 1]
                      ELSE IF ~up /\ c.q[k] < KeepLo(m, k, c.g[k]) THEN [c EXCEPT !.q[k] = KeepLo(m, k, c.g[k])]
                      ELSE c
\* what copy c becomes when it leaves over the upper (up) or lower side of its Grid in direction k; r: error of rounding
Sent(m, k, c, up, r, n) ==
  LET NGk == NGrids(m, k)  L == Top(m, k)
      edge == IF up THEN c.g[k] = NGk ELSE c.g[k] = 1
      b == IF ~edge THEN "x" ELSE m.bc[k][IF up THEN 2 ELSE 1]
      t == [c EXCEPT !.n = n, !.tag = <<IF up THEN "hi" ELSE "lo", k>>]
      rr(x) == IF (x + r + 2) \div 4 = (x + 2) \div 4 /\ (x + r) % 4 # 2 THEN x + r ELSE x
  IN CASE b = "o" -> {}
       [] b = "x" -> {Clamp(m, k, [t EXCEPT !.g[k] = IF up THEN c.g[k] + 1 ELSE c.g[k] - 1], ~up)}
       [] b = "p" -> {Clamp(m, k, [t EXCEPT !.g[k] = IF up THEN 1 ELSE NGk, !.q[k] = rr(IF up THEN c.q[k] - L ELSE c.q[k] + L)], ~up)}
       [] OTHER   -> {LET x == IF up THEN 2 * L - c.q[k] ELSE -c.q[k]
                          d == [t EXCEPT !.q[k] = x, !.fl[k] = -@]
                      IN IF FAULT = "noclamp" THEN d ELSE Clamp(m, k, d, up)}
Leaves(m, k, c, up) ==
  /\ IF up THEN c.q[k] >= Hi(m, k, c.g[k]) + (IF FAULT = "closed" THEN 1 ELSE 0) ELSE c.q[k] < Lo(m, k, c.g[k])
  /\ c.tag # <<"grid">>
  /\ c.tag # <<IF up THEN "lo" ELSE "hi", k>>
  /\ FAULT = "corner" => c.tag = <<"cross">>
Pass(m, k, cs, up, r) ==
  LET X == {c \in cs : Leaves(m, k, c, up)} IN
  cs \cup UNION {Sent(m, k, c, up, r, 2 * c.n + (IF up THEN 1 ELSE 0) + 10 * k) : c \in X}
Clean(m, cs) == IF FAULT = "nodelete" THEN cs ELSE {c \in cs : c.tag = <<"grid">> \/ ~Outside(m, c)}

-----------------------------------------------------------------------------
(* Binning: weight of a particle at p in zone z along one direction, in units of 1/128, for U = 8: interp = 1 linear, 2 triangular shaped cloud,
   3 quadratic polynomial. *)
W(interp, p, z) ==
  LET c == p - 8 * z  t == Abs(c - 4)  d == p % 8  i == p \div 8 IN
  CASE interp = 1 -> IF t < 8 THEN 16 * (8 - t) ELSE 0
    [] interp = 2 -> IF t <= 4 THEN 96 - 2 * t * t ELSE IF t < 12 THEN (12 - t) * (12 - t) ELSE 0
    [] OTHER -> CASE z = i - 1 -> (4 - d) * (12 - d)
                  [] z = i     -> 128 - 2 * (d - 4) * (d - 4)
                  [] z = i + 1 -> (d - 4) * (d + 4)
                  [] OTHER     -> 0
\* weights of mass and of the component of momentum along k, images over the edges included
WM(m, interp, k, p, z) ==
  LET N == LastOf(m.cut[k]) IN
  W(interp, p, z)
    + (IF m.bc[k][1] = "p" THEN W(interp, p, z - N) + W(interp, p, z + N) ELSE 0)
    + (IF m.bc[k][1] = "r" THEN W(interp, p, -1 - z) ELSE 0)
    + (IF m.bc[k][2] = "r" THEN W(interp, p, 2 * N - 1 - z) ELSE 0)
WN(m, interp, k, p, z) ==
  LET N == LastOf(m.cut[k]) IN
  W(interp, p, z)
    + (IF m.bc[k][1] = "p" THEN W(interp, p, z - N) + W(interp, p, z + N) ELSE 0)
    - (IF m.bc[k][1] = "r" THEN W(interp, p, -1 - z) ELSE 0)
    - (IF m.bc[k][2] = "r" THEN W(interp, p, 2 * N - 1 - z) ELSE 0)
=============================================================================
