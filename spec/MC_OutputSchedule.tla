------------------------- MODULE MC_OutputSchedule -------------------------
EXTENDS OutputSchedule
CONSTANTS MaxCyc, Dts, Steps, MaxRestarts
VARIABLES st, ph, n, restarts, base
vars == <<st, ph, n, restarts, base>>
\* base: writes of the lineage before the present run; init numbers are 0
Kinds == <<"dump", "dump", "rst">>
Init == \E d1 \in Dts, d2 \in Dts, dr \in Dts, f \in {0, 2} :
          /\ st = Begin(<<[t |-> 0, dt |-> d1, num |-> 0, kind |-> "dump"],
                          [t |-> f, dt |-> d2, num |-> 0, kind |-> "dump"],
                          [t |-> 0, dt |-> dr, num |-> 0, kind |-> "rst"]>>, 0)
          /\ ph = "run" /\ n = 0 /\ restarts = 0 /\ base = <<>>
Cycle == ph = "run" /\ n < MaxCyc /\ \E d \in Steps : st' = CycleOut(st, d) /\ n' = n + 1 /\ UNCHANGED <<ph, restarts, base>>
Stop == ph = "run" /\ st' = End(st) /\ ph' = "end" /\ UNCHANGED <<n, restarts, base>>
Restart == /\ ph = "end" /\ restarts < MaxRestarts
           /\ \E k \in 1..Len(st.snap) : /\ st' = Continue(st, k) /\ base' = base \o st.snap[k].w
           /\ ph' = "run" /\ restarts' = restarts + 1 /\ n' = 0
Next == Cycle \/ Stop \/ Restart \/ (ph = "end" /\ restarts = MaxRestarts /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
All == base \o st.w
Of(i) == SelectSeq(All, LAMBDA x : x.i = i)
Consecutive == \A i \in 1..3 : LET s == Of(i) IN \A k \in 1..Len(s) : s[k].num = k - 1
TimesOrdered == \A i \in 1..3 : LET s == Of(i) IN \A k \in 1..Len(s)-1 : s[k].time <= s[k+1].time
\* a schedule never runs ahead of the time by more than one interval
Progress == \A i \in 1..3 : st.o[i].t <= st.now + st.o[i].dt \/ st.o[i].t <= 2
InitialWritten == base = <<>> => \A i \in 1..3 : Len(Of(i)) >= 1 /\ Of(i)[1].time = 0
FinalWritten == ph = "end" => \A i \in 1..3 : LET s == Of(i) IN s[Len(s)].time = st.now
=============================================================================
