------------------------------ MODULE MC_BVals ------------------------------
(* The exchange protocol in two dimensions: Grids of a Domain run on their own,
   each packs and sends its edge zones in direction 1, applies physical
   conditions, receives, then does the same in direction 2 over the full
   extent (ghost zones of direction 1 included).  Whatever the interleaving,
   in the end every ghost zone holds what BVals!Holds says.
   Ordered = FALSE (negative control): direction 2 does not wait for direction 1. *)
EXTENDS BVals, TLC
CONSTANTS N1, N2, Cuts, Bcs, Ordered
VARIABLES b, cut, val, pc, net
CutsDef == {<<1,1>>, <<2,1>>, <<1,2>>, <<2,2>>}
vars == <<b, cut, val, pc, net>>
V == [k |-> "m", c |-> 1]                     \* momentum along 1: odd at walls of direction 1
None == -99999
Grids == {<<x, y>> : x \in 0..(cut[1] - 1), y \in 0..(cut[2] - 1)}
W(m) == (IF m = 1 THEN N1 ELSE N2) \div cut[m]
Lo(g, m) == g[m] * W(m)
Hi(g, m) == Lo(g, m) + W(m) - 1
Tag(q) == 1 + q[1] + 20*q[2]
Local(g) == {<<i, j>> : i \in (Lo(g,1) - NG)..(Hi(g,1) + NG), j \in (Lo(g,2) - NG)..(Hi(g,2) + NG)}
Act(g) == {p \in Local(g) : \A m \in 1..2 : Lo(g, m) <= p[m] /\ p[m] <= Hi(g, m)}
Init == /\ b \in {<<x[1], x[1], y[1], y[1], 2, 2>> : x \in Bcs \X {1}, y \in Bcs \X {1}} \cup {<<1, 2, 4, 4, 2, 2>>, <<4, 4, 2, 1, 2, 2>>}
        /\ cut \in Cuts
        /\ val = [g \in Grids |-> [p \in Local(g) |-> IF p \in Act(g) THEN Tag(p) ELSE None]]
        /\ pc = [g \in Grids |-> 0]
        /\ net = {}
\* neighbour of g in direction m, side s (0 left, 1 right), or <<>> at a physical boundary
Nb(g, m, s) == LET t == [g EXCEPT ![m] = IF s = 0 THEN @ - 1 ELSE @ + 1]
                   per == cut[m] > 1 /\ b[2*m-1] = 4
               IN IF t[m] >= 0 /\ t[m] < cut[m] THEN t
                  ELSE IF per THEN [t EXCEPT ![m] = (t[m] + cut[m]) % cut[m]] ELSE <<>>
Ext(g, m) == IF m = 1 THEN {p \in Local(g) : Lo(g, 2) <= p[2] /\ p[2] <= Hi(g, 2)} ELSE Local(g)   \* extent handled in direction m
\* zones of g in its ghost layer on side s of direction m
Layer(g, m, s) == {p \in Ext(g, m) : IF s = 0 THEN p[m] < Lo(g, m) ELSE p[m] > Hi(g, m)}
\* the message for the neighbour on side s: its ghost zones' values, taken from my active zones
NN(m) == IF m = 1 THEN N1 ELSE N2
Wrap(g, m, s, x) == IF s = 0 THEN x + (IF Lo(g, m) = 0 THEN NN(m) ELSE 0) ELSE x - (IF Hi(g, m) = NN(m) - 1 THEN NN(m) ELSE 0)
Content(g, m, s) ==
  LET src == {p \in Ext(g, m) : IF s = 0 THEN Lo(g, m) <= p[m] /\ p[m] < Lo(g, m) + NG ELSE Hi(g, m) - NG < p[m] /\ p[m] <= Hi(g, m)}
  IN {<<[p EXCEPT ![m] = Wrap(g, m, s, @)], val[g][p]>> : p \in src}
Send(g, m) ==
  /\ IF Ordered THEN pc[g] = 2*(m - 1) ELSE pc[g] \in {0, 1} /\ pc[g] = m - 1
  /\ net' = net \cup {[to |-> Nb(g, m, s), m |-> m, side |-> 1 - s, c |-> Content(g, m, s)] : s \in {x \in {0, 1} : Nb(g, m, x) # <<>>}}
  /\ val' = [val EXCEPT ![g] =
        [p \in Local(g) |->
          LET s == IF p \in Layer(g, m, 0) THEN 0 ELSE IF p \in Layer(g, m, 1) THEN 1 ELSE 2 IN
          IF s = 2 \/ (s < 2 /\ Nb(g, m, IF s = 2 THEN 0 ELSE s) # <<>>) THEN val[g][p]
          ELSE LET q == [p EXCEPT ![m] = CellSrc(NN(m), b[2*m-1], b[2*m], @)]
                   x == val[g][q]
               IN IF x = None THEN None ELSE IF Flip(V, m, CellBc(NN(m), b[2*m-1], b[2*m], p[m])) THEN -x ELSE x]]
  /\ pc' = [pc EXCEPT ![g] = @ + 1]
  /\ UNCHANGED <<b, cut>>
Expected(g, m) == {s \in {0, 1} : Nb(g, m, s) # <<>>}
\* receive and unpack one message (in any order)
Recv(g, m) ==
  /\ IF Ordered THEN pc[g] = 2*m - 1 ELSE pc[g] >= 2
  /\ \E msg \in net : /\ msg.to = g /\ msg.m = m
                      /\ net' = net \ {msg}
                      /\ val' = [val EXCEPT ![g] = [p \in Local(g) |-> IF \E x \in msg.c : x[1] = p /\ p \in Layer(g, m, msg.side)
                                                                       THEN (CHOOSE x \in msg.c : x[1] = p)[2] ELSE @[p]]]
  /\ UNCHANGED <<b, cut, pc>>
\* all messages of the direction are in
Finish(g, m) ==
  /\ Ordered /\ pc[g] = 2*m - 1
  /\ \A s \in Expected(g, m) : \A p \in Layer(g, m, s) : val[g][p] # None
  /\ pc' = [pc EXCEPT ![g] = @ + 1]
  /\ UNCHANGED <<b, cut, val, net>>
Next == \E g \in Grids, m \in 1..2 : Send(g, m) \/ Recv(g, m) \/ Finish(g, m)
Spec == Init /\ [][Next]_vars
Stopped == net = {} /\ \A g \in Grids : pc[g] = IF Ordered THEN 4 ELSE 2
n3 == <<N1, N2, 1>>
Correct == Stopped => \A g \in Grids : \A p \in Local(g) :
             val[g][p] = Holds(V, n3, b, <<p[1], p[2], 0>>, Tag)
NeverStuck == (\A g \in Grids, m \in 1..2 : ~ENABLED (Send(g, m) \/ Recv(g, m) \/ Finish(g, m))) => Stopped
=============================================================================
