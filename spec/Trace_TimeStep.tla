--------------------------- MODULE Trace_TimeStep ---------------------------
(* Validates recorded runs: every Grid on every process must report exactly
   the time and step the specification computes from the zone states.       *)
EXTENDS TimeStep, Json, IOUtils
VARIABLES s, l
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)

Base(r) == [d |-> 1, v |-> <<0,0,0>>, a2 |-> r.a2, c |-> <<0,0,0>>, f |-> <<0,0,0>>]
CourantOf(r, n) ==
  MinS({ZoneTime(Base(r), r.ndim, r.k, r.w[i], r.u) : i \in 1..Len(r.w)} \cup
       (IF n + 1 > Len(r.st) THEN {} ELSE
        {ZoneTime(r.st[n+1][i].z, r.ndim, r.k, r.st[n+1][i].w, r.u) : i \in 1..Len(r.st[n+1])}))
\* obs[n+1] = set (sequence) of <<time, dt>> seen after n cycles on any Grid
Sees(r, n) == /\ Len(r.obs[n+1]) >= 1
              /\ \A i \in 1..Len(r.obs[n+1]) : r.obs[n+1][i] = <<time, dt>>
SeesNext(r, n) == \A i \in 1..Len(r.obs[n+1]) : r.obs[n+1][i] = <<time', dt'>>

TInit == \E x \in 1..Len(T) : s = x /\ l = 0 /\ StartWith(CourantOf(T[x], 0), T[x].tl) 
TFirst == Sees(T[s], 0)
TNext == /\ l + 1 < Len(T[s].obs)
         /\ (l = 0 => TFirst)
         /\ l' = l + 1 /\ s' = s
         /\ Cycle(CourantOf(T[s], l + 1))
         /\ SeesNext(T[s], l + 1)
Done == /\ l + 1 = Len(T[s].obs)
        /\ (l = 0 => TFirst)
        /\ (time >= tlim \/ cyc = T[s].nlim)       \* it did not stop early
Accept == Done => TLCSet(s, TRUE)
TSpec == TInit /\ [][TNext]_<<vars, s, l>>
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x>>)} = {}
=============================================================================
