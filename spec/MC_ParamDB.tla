----------------------------- MODULE MC_ParamDB -----------------------------
EXTENDS ParamDB
CONSTANTS Bs, Ns, Vs, MaxLines, MaxOps
VARIABLES s, ls, ph, nops, hist
vars == <<s, ls, ph, nops, hist>>
\* hist: sequence of <<block, name, value>> assignments made so far
Init == s = Empty /\ ls = 0 /\ ph = "file" /\ nops = 0 /\ hist = <<>>
Lines == {[k |-> "block", b |-> b] : b \in Bs} \cup {[k |-> "set", n |-> n, v |-> v] : n \in Ns, v \in Vs}
File == /\ ph = "file" /\ ls < MaxLines /\ s.ok
        /\ \E l \in Lines : /\ s' = ReadLine(s, l)
                            /\ hist' = IF l.k = "set" /\ s.cur # "" THEN Append(hist, <<s.cur, l.n, l.v>>) ELSE hist
        /\ ls' = ls + 1 /\ UNCHANGED <<ph, nops>>
Cmd == /\ ph \in {"file", "cmd"} /\ s.ok /\ nops < MaxOps
       /\ \E b \in Bs, n \in Ns, v \in Vs : /\ s' = CmdLine(s, <<[b |-> b, n |-> n, v |-> v]>>)
                                            /\ hist' = IF s'.ok THEN Append(hist, <<b, n, v>>) ELSE hist
       /\ ph' = "cmd" /\ nops' = nops + 1 /\ UNCHANGED ls
Ops == /\ s.ok /\ nops < MaxOps
       /\ \E o \in {"gets", "getsdef", "sets"}, b \in Bs, n \in Ns, v \in Vs :
            /\ s' = Call(s, [op |-> o, b |-> b, n |-> n, v |-> v])[1]
            /\ hist' = IF o = "sets" \/ (o = "getsdef" /\ ~Has(s.db, b, n)) THEN Append(hist, <<b, n, v>>) ELSE hist
       /\ ph' = "ops" /\ nops' = nops + 1 /\ UNCHANGED ls
Next == File \/ Cmd \/ Ops
Spec == Init /\ [][Next]_vars
Last(b, n) == LET I == {i \in 1..Len(hist) : hist[i][1] = b /\ hist[i][2] = n} IN hist[CHOOSE i \in I : \A j \in I : j <= i][3]
LastAssignmentWins == \A b \in Bs, n \in Ns :
   (Has(s.db, b, n) <=> \E i \in 1..Len(hist) : hist[i][1] = b /\ hist[i][2] = n) /\ (Has(s.db, b, n) => Value(s.db, b, n) = Last(b, n))
Unique == \A i, j \in 1..Len(s.db) : s.db[i].b = s.db[j].b => i = j
DumpReload == Reload(s.db) = s.db
NeverMadeUp == [][\A b \in Bs, n \in Ns : Has(s.db, b, n) => Has(s'.db, b, n)]_vars
=============================================================================
