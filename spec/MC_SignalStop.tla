--------------------------- MODULE MC_SignalStop ---------------------------
EXTENDS SignalStop
CONSTANTS MaxNp, MaxCyc, MaxSig
Init == \E n \in 1..MaxNp, l \in {-1} \cup 0..MaxCyc, t \in 0..MaxCyc : AtStart(n, l, t)
Next == Step \/ (\E p \in P : Cardinality(deliv) < MaxSig /\ (Signal(p) \/ WallLimit(p)))
             \/ (Terminated /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
=============================================================================
