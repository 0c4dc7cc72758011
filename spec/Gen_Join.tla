------------------------------ MODULE Gen_Join ------------------------------
(* Random sets of files for the joining tools: pieces of boxes with unequal cuts, lists of variables, orders of the files on the command line,
   and sets with one damaged or foreign file; particle lists of several processes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLE phase
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
RECURSIVE Rand(_, _)
Rand(n, S) == IF n = 0 THEN <<>> ELSE <<Pick(S)>> \o Rand(n - 1, S)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE One({<<x>> \o Shuffle(S \ {x}) : x \in {Pick(S)}})
Cut(most) == One({Rand(n, 1..5) : n \in {Pick(1..most)}})
Box(nd) == One({<<a, IF nd > 1 THEN b ELSE <<1>>, IF nd > 2 THEN c ELSE <<1>> >> : a \in {Cut(4)}, b \in {Cut(3)}, c \in {Cut(3)}})
Vtk(b, n) ==
  One({[kind |-> "vtk", cuts |-> b, vars |-> v, order |-> o, dx |-> Rand(3, {1, 2, 3, 10}), x0 |-> Rand(3, {-40, -3, 0, 5}), mode |-> Pick(1..4),
        seed |-> Pick(1..1000000), t |-> Pick(0..5), which |-> Pick(1..n),
        bad |-> Pick({"missing", "notvtk", "ascii", "names", "type", "short", "fewer", "celldata"} \cup {"none" \o ToString(i) : i \in 1..16})] :
        o \in {Shuffle(1..n)}, v \in {One({Rand(k, {"S1", "S2", "V"}) : k \in {Pick(1..5)}})}})
VtkOk(z) == One({Vtk(b, Len(b[1])*Len(b[2])*Len(b[3])) : b \in {Box(Pick({1, 2, 3}))}})
Lis(z) == One({[kind |-> "lis", n |-> Rand(np, 0..14), ntype |-> Pick(1..4), first |-> Pick({0, 3, 12}), count |-> Pick(1..3), seed |-> Pick(1..1000000),
             miss |-> IF Pick(1..5) = 1 THEN np ELSE 0] : np \in {Pick(1..12)}})
Init == phase = 0
Next == phase = 0 /\ phase' = 1 /\ \E x \in {IF Pick(1..4) = 1 THEN Lis(phase) ELSE VtkOk(phase)} : PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_phase
=============================================================================
