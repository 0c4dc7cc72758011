--------------------------- MODULE Gen_SignalStop ---------------------------
(* Random behaviours of SignalStop as scenarios for the real code.           *)
EXTENDS MC_SignalStop, Json
VARIABLES hist, out
GInit == (\E n \in 1..MaxNp, l \in {-1, 2, 4, 5, 6}, t \in {3, 4, 5, 6} : AtStart(n, l, t)) /\ hist = <<>> /\ out = FALSE
\* deliveries are rationed so that runs of several cycles occur
Rare(k) == RandomElement(1..k) = 1
GNext ==
  \/ Step /\ UNCHANGED <<hist, out>>
  \/ \E p \in P : /\ Len(hist) < MaxSig /\ Rare(6)
                  /\ \/ Signal(p) /\ hist' = Append(hist, [r |-> p, c |-> cyc[p] + (IF pc[p] = "work" THEN 1 ELSE 0), at |-> pc[p]])
                     \/ WallLimit(p) /\ Rare(3) /\ hist' = Append(hist, [r |-> p, c |-> cyc[p] + 1, at |-> "wall"])
                  /\ UNCHANGED out
  \/ /\ Terminated /\ ~out /\ out' = TRUE
     /\ PrintT("SCN " \o ToJson([np |-> np, nlim |-> nlim, tcyc |-> tcyc, cyc |-> cyc[1], sig |-> hist]))
     /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, out>>
=============================================================================
