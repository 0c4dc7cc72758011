---------------------------- MODULE Trace_ParamDB ----------------------------
(* Validates recorded sessions: lines, cmd (as above), calls with the observed
   answers ans, whether the program ended with an error, the data base it
   dumped after the calls, and the one it had after reading that dump back.  *)
EXTENDS ParamDB, Json, IOUtils
VARIABLES s, st, n
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
R == T[s]
\* blocks that have a parameter or not are all dumped; compare exactly
SameDB(d, o) == /\ Len(d) = Len(o)
                /\ \A i \in 1..Len(d) : /\ d[i].b = o[i].b /\ Len(d[i].p) = Len(o[i].p)
                                        /\ \A j \in 1..Len(d[i].p) : d[i].p[j][1] = o[i].p[j][1] /\ d[i].p[j][2] = o[i].p[j][2]
TInit == \E x \in 1..Len(T) : s = x /\ n = 0 /\ st = CmdLine(ReadFile(Empty, T[x].lines), T[x].cmd)
TNext == /\ st.ok /\ n < Len(R.calls) /\ n < Len(R.ans)
         /\ n' = n + 1 /\ s' = s
         /\ LET c == Call(st, R.calls[n + 1]) IN st' = c[1] /\ c[2] = R.ans[n + 1]
Done == \/ ~st.ok /\ R.err /\ n = Len(R.ans)
        \/ st.ok /\ ~R.err /\ n = Len(R.calls) /\ n = Len(R.ans) /\ SameDB(st.db, R.db) /\ SameDB(st.db, R.db2)
TSpec == TInit /\ [][TNext]_<<s, st, n>>
Accept == Done => TLCSet(s, TRUE)
AllAccepted == {x \in 1..Len(T) : ~TLCGet(x) /\ PrintT(<<"REJECTED", x>>)} = {}
=============================================================================
