------------------------ MODULE Trace_OutputSchedule ------------------------
(* Validates recorded chains of runs.  A record: o = configured outputs
   [t, dt, num, kind]; runs = sequence of
     [from |-> restart number (-1: new run), ovr |-> <<output, new dt>> or <<>>,
      times |-> time at the start of every cycle and at the end,
      w |-> per output the sequence of <<num, time>> found in the files
            (time -1: the format does not record it)]
   Every run after the first continues from a restart file of the previous.  *)
EXTENDS OutputSchedule, Json, IOUtils
VARIABLES s, r, st, ok
vars == <<s, r, st, ok>>
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
RunOf == T[s].runs[r]
Override(q, v) == IF Len(v) = 0 THEN q ELSE [q EXCEPT !.o[v[1]].dt = v[2]]
\* the complete behaviour of one run, given the times of its cycles
RECURSIVE Cycles(_, _, _)
Cycles(q, ts, n) == IF n >= Len(ts) THEN q ELSE Cycles(CycleOut(q, ts[n+1] - ts[n]), ts, n+1)
Play(q, ts) == End(Cycles(q, ts, 1))
Sel(q, i) == LET a == SelectSeq(q.w, LAMBDA x : x.i = i) IN [j \in 1..Len(a) |-> <<a[j].num, a[j].time>>]
SameWrites(q, w) ==
  \A i \in 1..Len(q.o) :
    LET e == Sel(q, i) g == w[i] IN
      /\ Len(e) = Len(g)
      /\ \A j \in 1..Len(e) : (g[j][1] = -1 \/ e[j][1] = g[j][1]) /\ (g[j][2] = -1 \/ e[j][2] = g[j][2])
\* history files have no numbers
Judge(q, run) == SameWrites(q, run.w) /\ q.now = run.times[Len(run.times)]
TInit == \E x \in 1..Len(T) : /\ s = x /\ r = 1
          /\ LET run == T[x].runs[1]
                 q == Play(Begin(T[x].o, run.times[1]), run.times)
             IN st = q /\ ok = Judge(q, run)
SnapIdx(q, num) == {k \in 1..Len(q.snap) : q.snap[k].num = num}
TNext == /\ ok /\ r < Len(T[s].runs) /\ r' = r + 1 /\ s' = s
         /\ LET run == T[s].runs[r + 1]
                K == SnapIdx(st, run.from)
            IN /\ K # {}
               /\ LET q0 == Override(Continue(st, CHOOSE k \in K : TRUE), run.ovr)
                      q  == Play(q0, run.times)
                  IN /\ st' = q
                     /\ ok' = (q0.now = run.times[1] /\ Judge(q, run))
TSpec == TInit /\ [][TNext]_vars
Accept == (ok /\ r = Len(T[s].runs)) => TLCSet(s, TRUE)
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x>>)} = {}
=============================================================================
