---------------------------- MODULE MC_TimeStep ----------------------------
(* Exhaustive check of the design: any sequence of Courant times.           *)
EXTENDS TimeStep
CONSTANT MaxC, MaxT, MaxCyc
Cs == {2^n : n \in 0..MaxC} \cup {3, 5}
Init == \E c \in Cs, l \in 1..MaxT : StartWith(c, l)
Next == \E c \in Cs : Cycle(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bound == cyc <= MaxCyc
=============================================================================
