----------------------------- MODULE SignalStop -----------------------------
(* How a run stops (main.c main loop, ath_signal.c), property C01.

   np processes run cycles in lock step; a cycle is work, then the stop
   decision: sample the signal latch, combine the samples of all processes
   (a barrier), forget what has been acted upon, and leave or go on.
   A SIGTERM may be delivered to any process at any moment.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BlindReset      \* TRUE: clear the latch without looking (the defect)

VARIABLES np, nlim, tcyc,  \* processes, cycle limit (-1: none), cycles to tlim
          pc,              \* per process
          cyc,             \* completed cycles
          latch, sample,   \* per process
          wall,            \* per process: wall-clock limit passed
          quit,            \* result of the reduction in this cycle
          acked,           \* processes that finished the stop decision
          deliv            \* set of <<cycle, early>>: deliveries so far
vars == <<np, nlim, tcyc, pc, cyc, latch, sample, wall, quit, acked, deliv>>

P == 1..np
LimitHit(c) == c >= tcyc \/ (nlim >= 0 /\ c >= nlim)
AtStart(n, l, t) ==
  /\ np = n /\ nlim = l /\ tcyc = t
  /\ cyc = [p \in 1..n |-> 0]
  /\ pc = [p \in 1..n |-> IF t <= 0 \/ l = 0 THEN "final" ELSE "work"]
  /\ latch = [p \in 1..n |-> FALSE] /\ sample = [p \in 1..n |-> FALSE]
  /\ wall = [p \in 1..n |-> FALSE]
  /\ quit = FALSE /\ acked = {} /\ deliv = {}

\* a signal is "early" in cycle c when it arrives before the latch is sampled
Signal(p) == /\ pc[p] \notin {"gone"}
             /\ latch' = [latch EXCEPT ![p] = TRUE]
             /\ deliv' = deliv \cup {<<cyc[p] + (IF pc[p] = "work" THEN 1 ELSE 0), pc[p]>>}
             /\ UNCHANGED <<np, nlim, tcyc, pc, cyc, sample, wall, quit, acked>>
WallLimit(p) == /\ pc[p] = "work" /\ ~wall[p]
                /\ wall' = [wall EXCEPT ![p] = TRUE]
                /\ deliv' = deliv \cup {<<cyc[p] + 1, "work">>}
                /\ UNCHANGED <<np, nlim, tcyc, pc, cyc, latch, sample, quit, acked>>
Work(p)  == /\ pc[p] = "work"
            /\ pc' = [pc EXCEPT ![p] = "sample"] /\ cyc' = [cyc EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<np, nlim, tcyc, latch, sample, wall, quit, acked, deliv>>
Sample(p) == /\ pc[p] = "sample"
             /\ sample' = [sample EXCEPT ![p] = latch[p]]
             /\ pc' = [pc EXCEPT ![p] = "reduce"]
             /\ UNCHANGED <<np, nlim, tcyc, cyc, latch, wall, quit, acked, deliv>>
\* the reduction completes when every process has contributed
Reduce == /\ \A p \in P : pc[p] = "reduce"
          /\ quit' = \E p \in P : sample[p] \/ wall[p]
          /\ pc' = [p \in P |-> "reset"]
          /\ UNCHANGED <<np, nlim, tcyc, cyc, latch, sample, wall, acked, deliv>>
Reset(p) == /\ pc[p] = "reset"
            /\ latch' = [latch EXCEPT ![p] = IF sample[p] \/ BlindReset THEN FALSE ELSE @]
            /\ pc' = [pc EXCEPT ![p] = IF quit \/ LimitHit(cyc[p]) THEN "final" ELSE "ready"]
            /\ UNCHANGED <<np, nlim, tcyc, cyc, sample, wall, quit, acked, deliv>>
\* the next cycle starts when all have decided (collective calls of the step)
Resume == /\ \A p \in P : pc[p] = "ready"
          /\ pc' = [p \in P |-> "work"]
          /\ UNCHANGED <<np, nlim, tcyc, cyc, latch, sample, wall, quit, acked, deliv>>
Finish(p) == /\ pc[p] = "final"
             /\ pc' = [pc EXCEPT ![p] = "gone"] /\ acked' = acked \cup {p}
             /\ UNCHANGED <<np, nlim, tcyc, cyc, latch, sample, wall, quit, deliv>>
Step == Reduce \/ Resume \/ \E p \in P : Work(p) \/ Sample(p) \/ Reset(p) \/ Finish(p)
Terminated == \A p \in P : pc[p] = "gone"
-----------------------------------------------------------------------------
SameCycle == \A p, q \in P : (pc[p] \in {"final", "gone"} /\ pc[q] \in {"final", "gone"}) => cyc[p] = cyc[q]
\* a request made before the decision of cycle c stops the run after c, one
\* made during it after c or c+1, and nothing else does
NotLate == Terminated => \A d \in deliv : cyc[1] <= d[1] + (IF d[2] \in {"work", "final", "gone"} THEN 0 ELSE 1)
NotEarly == Terminated => LimitHit(cyc[1]) \/ \E d \in deliv : cyc[1] \in {d[1], d[1] + 1}
WithinLimits == Terminated => (nlim < 0 \/ cyc[1] <= nlim) /\ cyc[1] <= (IF tcyc < 0 THEN 0 ELSE tcyc)
LeavesTogether == \A p, q \in P : pc[p] \in {"final", "gone"} => pc[q] \in {"reset", "final", "gone"}
Ends == <>Terminated
=============================================================================
