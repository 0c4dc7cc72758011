------------------------------ MODULE ShearBox ------------------------------
(* Azimuthal displacement of rows of zones in a shearing box (bvals_shear.c):
   ghost zones across the radial boundaries, and orbital advection.
   Property C16.

   A row is a periodic sequence of zone contents along y.  It is displaced by
   s eighths of a zone, s = 8n + p with 0 <= p < 8 (s of either sign): zone j of
   the displaced row covers the part 8-p of zone j-n and the part p of zone
   j-n-1.  Judge states what a displaced row must look like, whatever the
   reconstruction inside the zones:
     - nothing is lost: the contents add up to those of the original row
     - a whole number of zones is an exact shift
     - straight and parabolic stretches stay so (second-order accuracy)
     - nothing is made up: contents stay within the range of nearby ones
   The rest of the module is a machine which displaces a row as the code does:
   a piecewise linear, limited remap over the fraction p, then a cyclic shift
   over n zones, by copies on one Grid, or by exchanging two blocks per Grid
   when the row is divided among several. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Wrap(j, n) == ((j - 1) % n) + 1
At(r, j) == r[Wrap(j, Len(r))]
RECURSIVE SumTo(_, _)
SumTo(r, n) == IF n = 0 THEN 0 ELSE r[n] + SumTo(r, n - 1)
Total(r) == SumTo(r, Len(r))
RECURSIVE MinOf(_, _, _)
MinOf(r, a, b) == IF a = b THEN At(r, a) ELSE Min2(At(r, a), MinOf(r, a + 1, b))
RECURSIVE MaxOf(_, _, _)
MaxOf(r, a, b) == IF a = b THEN At(r, a) ELSE Max2(At(r, a), MaxOf(r, a + 1, b))
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
---------------------------------------------------------------------------
(* src, got: rows in the same unit; tol: rounding, in that unit; wide: the
   reconstruction may keep smooth extrema (third order): a wider range.     *)
Kept(src, got, tol) == Abs(Total(got) - Total(src)) <= tol * Len(src)
Exact(src, got, s, tol) == s % 8 = 0 => \A j \in 1..Len(src) : Abs(got[j] - At(src, j - (s \div 8))) <= tol
(* straight and parabolic stretches (steps differing by d, well away from the
   turning point, where limiting sets in) over the six zones around *)
Smooth(r, a, b) ==
  LET st(j) == At(r, j) - At(r, j - 1)
      d == st(a + 2) - st(a + 1)
  IN /\ \A j \in (a + 2)..b : st(j) - st(j - 1) = d
     /\ d # 0 => \A j \in (a + 1)..b : Sign(st(j)) = Sign(st(b)) /\ Abs(st(j)) >= 2*Abs(d)
Curves(src, got, s, tol) ==
  LET n == s \div 8  p == s % 8
  IN \A j \in 1..Len(src) : Smooth(src, j - n - 3, j - n + 2) =>
       LET l == At(src, j - n) - At(src, j - n - 1)
           d == l - (At(src, j - n - 1) - At(src, j - n - 2))
       IN Abs(128*got[j] - (128*At(src, j - n) - 16*p*l - p*(8 - p)*d)) <= 128*tol
Ranges(src, got, s, tol, wide) ==
  LET n == s \div 8
      e == IF wide THEN 1 ELSE 0
  IN \A j \in 1..Len(src) :
       LET lo == MinOf(src, j - n - 2 - e, j - n + 1 + e)  hi == MaxOf(src, j - n - 2 - e, j - n + 1 + e)
       IN lo - e*(hi - lo) - tol <= got[j] /\ got[j] <= hi + e*(hi - lo) + tol
Judge(src, got, s, tol, wide) == Kept(src, got, tol) /\ Exact(src, got, s, tol) /\ Curves(src, got, s, tol) /\ Ranges(src, got, s, tol, wide)
---------------------------------------------------------------------------
CONSTANTS Cells,        \* zones of a row
          Blocks,       \* numbers of Grids along y
          Contents,     \* contents of a zone
          Extra,        \* further rows
          Shifts,       \* displacements
          Fault         \* "none", "direction", "nowrap", "overlap", "neighbour", "unlimited", "slope"
\* the unit of remapped contents is 1/512 of that of the row
U == 512
\* twice the limited slope of zone j
Slope2(r, j) == LET l == At(r, j) - At(r, j-1)  q == At(r, j+1) - At(r, j)
                IN IF Fault = "unlimited" THEN 4*q ELSE IF Fault = "slope" THEN 0 ELSE
                   IF l * q <= 0 THEN 0 ELSE Sign(l) * Min2(Abs(l + q), 4*Min2(Abs(l), Abs(q)))
\* content moving through the lower face of zone j when the row is displaced by p/8 upwards: U * p/8 * (a + (1-p/8)/2 * slope)
Flux(r, j, p) == 64*p * At(r, j-1) + (U \div 256) * p * (8 - p) * Slope2(r, j-1)
FluxDown(r, j, p) == -(64*p * At(r, j) - (U \div 256) * p * (8 - p) * Slope2(r, j))
Remap(r, p) == IF p >= 0 THEN [j \in 1..Len(r) |-> U*r[j] - (Flux(r, j+1, p) - Flux(r, j, p))]
               ELSE [j \in 1..Len(r) |-> U*r[j] - (FluxDown(r, j+1, -p) - FluxDown(r, j, -p))]
VARIABLES row,          \* the row to be displaced
          s,            \* by s/8 zones
          g,            \* number of Grids
          buf,          \* remapped contents, per Grid
          box,          \* messages [to, tag, data]
          res,          \* the result, per Grid
          sent
vars == <<row, s, g, buf, box, res, sent>>
N == Len(row)
Len1 == N \div g                                    \* zones of a Grid
Trunc(a) == IF a < 0 THEN -((-a) \div 8) ELSE a \div 8
\* displacement within the period, split with the sign of s (as the code does)
Red == IF s < 0 THEN -((-s) % (8*N)) ELSE s % (8*N)
Off == Abs(Trunc(Red))
Up == Red >= 0
Over == Off % Len1
Far == Off \div Len1
Grids == 0..(g - 1)
Init == /\ row \in Extra \cup UNION {[1..n -> Contents] : n \in Cells} /\ s \in Shifts /\ g \in {b \in Blocks : Len(row) % b = 0}
        /\ buf = <<>> /\ box = {} /\ res = [b \in Grids |-> <<>>] /\ sent = {}
DoRemap == /\ buf = <<>>
           /\ LET p == Red - 8*Trunc(Red)  r == Remap(row, p)
              IN buf' = [b \in Grids |-> SubSeq(r, b*Len1 + 1, (b+1)*Len1)]
           /\ UNCHANGED <<row, s, g, box, res, sent>>
\* the block which crosses one more Grid boundary, and the rest
Dir == IF Up = (Fault # "direction") THEN 1 ELSE -1
Cross(b) == LET o == IF Fault = "overlap" /\ Over > 0 THEN Over - 1 ELSE Over
            IN IF Dir = 1 THEN SubSeq(buf[b], Len1 - o + 1, Len1) ELSE SubSeq(buf[b], 1, o)
Rest(b) == IF Dir = 1 THEN SubSeq(buf[b], 1, Len1 - Over) ELSE SubSeq(buf[b], Over + 1, Len1)
To(b, k) == IF Fault = "nowrap" THEN Min2(g - 1, Max2(0, b + Dir*k)) ELSE IF Fault = "neighbour" THEN (b + Dir*Min2(k, 1)) % g ELSE (b + Dir*k) % g
Send(b) == /\ buf # <<>> /\ b \notin sent /\ sent' = sent \cup {b}
           /\ box' = box \cup (IF Over > 0 THEN {[to |-> To(b, Far + 1), from |-> b, tag |-> "cross", d |-> Cross(b)]} ELSE {})
                         \cup {[to |-> To(b, Far), from |-> b, tag |-> "rest", d |-> Rest(b)]}
           /\ UNCHANGED <<row, s, g, buf, res>>
Recv(b) == /\ buf # <<>> /\ res[b] = <<>>
           /\ \E y \in box : y.to = b /\ y.tag = "rest"
              /\ IF Over = 0 THEN res' = [res EXCEPT ![b] = y.d] /\ box' = box \ {y}
                 ELSE \E x \in box : x.to = b /\ x.tag = "cross"
                      /\ res' = [res EXCEPT ![b] = IF Dir = 1 THEN x.d \o y.d ELSE y.d \o x.d]
                      /\ box' = box \ {x, y}
           /\ UNCHANGED <<row, s, g, buf, sent>>
Next == DoRemap \/ \E b \in Grids : Send(b) \/ Recv(b)
Spec == Init /\ [][Next]_vars
Done == \A b \in Grids : res[b] # <<>>
RECURSIVE Cat(_)
Cat(b) == IF b < 0 THEN <<>> ELSE Cat(b - 1) \o res[b]
Result == Cat(g - 1)
Scaled == [j \in 1..N |-> U * row[j]]
Correct == Done => Len(Result) = N /\ Judge(Scaled, Result, s, 0, FALSE)
NeverStuck == ~Done => ENABLED Next
(* Orbital advection moves whole zones as part of the flux: the content through
   a face is that of the whole zones passing it and the fraction of the next
   one.  This is the same displacement.                                      *)
RECURSIVE Passing(_, _, _)
Passing(r, j, n) == IF n = 0 THEN 0 ELSE U * At(r, j - n) + Passing(r, j, n - 1)
RECURSIVE PassingDown(_, _, _)
PassingDown(r, j, n) == IF n = 0 THEN 0 ELSE PassingDown(r, j, n - 1) - U * At(r, j + n - 1)
FaceFlux(r, j, q) == LET n == Trunc(q)  p == q - 8*n
                     IN IF q >= 0 THEN Flux(r, j - n, p) + Passing(r, j, n) ELSE FluxDown(r, j - n, -p) + PassingDown(r, j, -n)
Advected == [j \in 1..N |-> U*row[j] - (FaceFlux(row, j + 1, s) - FaceFlux(row, j, s))]
SameByFlux == Judge(Scaled, Advected, s, 0, FALSE)
AgreesWithExchange == Done => Result = Advected
=============================================================================
