------------------------------- MODULE MC_Join ------------------------------
(* Exhaustive: every division of small boxes into up to three pieces per direction, every order of the files. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Fault, Big
VARIABLES P, A, pos, out, at
J == INSTANCE Join
Cuts == {<<2>>, <<1, 2>>, <<2, 1>>} \cup (IF Big THEN {<<1, 1, 2>>, <<3>>} ELSE {})
Cuts3 == IF Big THEN {<<1>>, <<1, 2>>, <<2, 1>>} ELSE {<<1>>, <<2, 1>>}
RECURSIVE SumTo(_, _)
SumTo(c, n) == IF n = 0 THEN 0 ELSE c[n] + SumTo(c, n - 1)
Make(c1, c2, c3) ==
  LET N == <<SumTo(c1, Len(c1)), SumTo(c2, Len(c2)), SumTo(c3, Len(c3))>>
      piece(a, b, c) == LET nx == <<c1[a], c2[b], c3[c]>>
                            off == <<SumTo(c1, a - 1), SumTo(c2, b - 1), SumTo(c3, c - 1)>>
                        IN [nx |-> nx, off |-> off, v |-> [q \in 1..(nx[1]*nx[2]*nx[3]) |-> LET z == J!Zone(nx, off, q) IN J!Ix(N, z)]]
  IN {piece(a, b, c) : a \in 1..Len(c1), b \in 1..Len(c2), c \in 1..Len(c3)}
Orders(S) == LET n == Cardinality(S) IN
  IF n <= (IF Big THEN 4 ELSE 3) THEN {f \in [1..n -> S] : Cardinality({f[i] : i \in 1..n}) = n}
  ELSE \* one order and its reverse
    LET RECURSIVE lst(_)
        lst(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o lst(T \ {x})
        l == lst(S)
    IN {l, [i \in 1..n |-> l[n + 1 - i]]}
Init == /\ P \in UNION {Orders(Make(c1, c2, c3)) : c1 \in Cuts, c2 \in Cuts, c3 \in Cuts3}
        /\ A = <<>> /\ pos = <<>> /\ out = <<>> /\ at = <<>>
Spec == Init /\ [][J!Next]_<<P, A, pos, out, at>>
Safe == J!Safe
Box == J!IsBox(P)
=============================================================================
