-------------------------- MODULE Trace_SignalStop --------------------------
(* Validates recorded runs.  A record: np, nlim, tcyc, sig = sequence of
   [r, c, ph]: delivered on process r while it worked on cycle c (ph = "work":
   before the user hook of cycle c was left; "dec": between there and the start
   of cycle c+1; "end": after the main loop; "wall": wall-clock limit passed in
   cycle c), done = completed cycles per process, fin = outputs written after
   the loop per process, ok = all processes exited with success.
   A record is accepted if some behaviour of SignalStop with exactly these
   deliveries ends like the recorded run.                                    *)
EXTENDS SignalStop, Json, IOUtils
VARIABLES s, todo
T == ndJsonDeserialize(IOEnv.VF_TRACE)
R == T[s]
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
TInit == \E x \in 1..Len(T) : s = x /\ todo = 1..Len(T[x].sig) /\ AtStart(T[x].np, T[x].nlim, T[x].tcyc)
PhaseOK(i) == LET g == R.sig[i] IN
  CASE g.ph \in {"work", "wall"} -> pc[g.r] = "work" /\ cyc[g.r] + 1 = g.c
    [] g.ph = "dec" -> \/ pc[g.r] \in {"sample", "reduce", "reset"} /\ cyc[g.r] = g.c
                       \/ pc[g.r] = "ready" /\ cyc[g.r] = g.c
                       \/ pc[g.r] = "final"
    [] g.ph = "end" -> pc[g.r] = "final"
Deliver == \E i \in todo : /\ PhaseOK(i)
                           /\ todo' = todo \ {i} /\ s' = s
                           /\ IF R.sig[i].ph = "wall" THEN WallLimit(R.sig[i].r) ELSE Signal(R.sig[i].r)
\* a process does not leave a phase in which a recorded delivery is due
Due(p, phs) == \E i \in todo : R.sig[i].r = p /\ R.sig[i].ph \in phs /\ R.sig[i].c = cyc[p] + (IF pc[p] = "work" THEN 1 ELSE 0)
TStep == /\ UNCHANGED <<s, todo>>
         /\ \/ Reduce
            \/ Resume /\ \A p \in P : ~Due(p, {"dec"})
            \/ \E p \in P : \/ Work(p) /\ ~Due(p, {"work", "wall"})
                            \/ Sample(p) \/ Reset(p)
                            \/ Finish(p) /\ ~\E i \in todo : R.sig[i].r = p /\ R.sig[i].ph \in {"end", "dec"}
Match == /\ Terminated /\ todo = {} /\ R.ok
         /\ \A p \in P : R.done[p] = cyc[p] /\ R.fin[p] = 1
\* register x is set when record x is accepted
Accept == Match => TLCSet(s, TRUE)
TSpec == TInit /\ [][Deliver \/ TStep]_<<vars, s, todo>>
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x>>)} = {}
=============================================================================
