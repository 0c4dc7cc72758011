-------------------------- MODULE Trace_RunHistory --------------------------
(* Validates recorded runs of the real code.  Each record holds the runs of
   one problem: undivided, divided among processes, continued from checkpoints.
   A run r reports, for each process and cycle, time, step and a digest of the
   complete state (the digests of its processes add up to the digest of the
   undivided state), plus digests of the files written at that cycle.  The
   record is accepted iff there is one history that every run is on: the
   behaviour below walks through the cycles of the history, all runs in step.

   record: [id, last, runs]
   run:    [name, from, upto, status, exact, obs, rows]
           exact: FALSE if the history is specified up to rounding only (two refined Domains one coarse zone apart:
                  the order in which their corrections are added is not determined)
           from: the cycle of the checkpoint it continues (0: a new run)
           upto: the cycle it ends at (the last one, unless it is to be continued again)
           obs:  sequence over cycles from..upto of
                 [c, t: seq over processes, dt: seq over processes, h, files]
           files: sequence of [n: name, d: digest] of files written at that cycle
           rows: sequence of history rows (integers, scaled), compared with a
                 tolerance, one per cycle, or empty *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, c
Runs == T[s].runs
At(r, k) == r.obs[k - r.from + 1]
Has(r, k) == k >= r.from /\ k - r.from + 1 <= Len(r.obs)
Abs(x) == IF x < 0 THEN -x ELSE x
\* the state of the history at cycle k: that of the undivided, uninterrupted run
Ref == Runs[1]
SameState(r, k) ==
  LET o == At(r, k)
      h == At(Ref, k)
  IN /\ o.c = k /\ h.c = k
     /\ \A q \in 1..Len(o.t) : o.t[q] = o.t[1] /\ o.dt[q] = o.dt[1]
     /\ r.exact => o.t[1] = h.t[1] /\ o.dt[1] = h.dt[1] /\ o.h = h.h
SameFiles(r, k) == LET A == {<<f.n, f.d>> : f \in {At(r, k).files[i] : i \in 1..Len(At(r, k).files)}}
                       B == {<<f.n, f.d>> : f \in {At(Ref, k).files[i] : i \in 1..Len(At(Ref, k).files)}}
                   IN r.cmpfiles => A = B
CloseRows(r, k) == LET i == k - r.from + 1
                       j == k - Ref.from + 1
                   IN (i <= Len(r.rows) /\ j <= Len(Ref.rows)) =>
                        \A n \in 1..Len(Ref.rows[j]) : Abs(r.rows[i][n] - Ref.rows[j][n]) <= 2
Shape == /\ \A i \in 1..Len(Runs) : /\ Runs[i].status = 0
                                    /\ Len(Runs[i].obs) = Runs[i].upto - Runs[i].from + 1
                                    /\ Len(Runs[i].rows) \in {0, T[s].last - Runs[i].from + 1, Len(Ref.rows)}
         /\ Ref.from = 0
OnHistory(k) == \A i \in 1..Len(Runs) : Has(Runs[i], k) => SameState(Runs[i], k) /\ SameFiles(Runs[i], k) /\ CloseRows(Runs[i], k)
TInit == s \in 1..Len(T) /\ c = 0 /\ Shape /\ OnHistory(0)
TNext == c < T[s].last /\ c' = c + 1 /\ s' = s /\ OnHistory(c')
TSpec == TInit /\ [][TNext]_<<s, c>>
Accept == c = T[s].last => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
