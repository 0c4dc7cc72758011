--------------------------- MODULE OutputSchedule ---------------------------
(* When outputs are written and how they are numbered (output.c, main.c),
   property C03.  Times are integers (ticks).

   An output o has: t next scheduled time, dt interval, num next number.  The
   restart output is like the others, except that writing it also stores the
   schedules and numbers with which a restarted run continues.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS ForgetDue  \* TRUE: stored numbers ignore the writes of the same moment (a defect)

\* st: [now |-> time, o |-> sequence of [t, dt, num, kind], w |-> writes so far,
\*      snap |-> stored continuations, in order of restart number]
DueAt(o, now) == now >= o.t
Advance(o, now, force) ==
  [o EXCEPT !.t = IF DueAt(o, now) THEN @ + o.dt ELSE @,
            !.num = IF force \/ DueAt(o, now) THEN @ + 1 ELSE @]
Written(o, now, force) == force \/ DueAt(o, now)

\* one call of the output driver
Output(st, force) ==
  LET now == st.now
      idx == 1..Len(st.o)
      new == [i \in idx |-> Advance(st.o[i], now, force)]
      hit == {i \in idx : Written(st.o[i], now, force)}
      ws  == [i \in hit |-> [i |-> i, num |-> st.o[i].num, time |-> now]]
      app == LET RECURSIVE f(_, _)
                 f(n, acc) == IF n > Len(st.o) THEN acc
                              ELSE f(n+1, IF n \in hit THEN Append(acc, ws[n]) ELSE acc)
             IN f(1, st.w)
      rst == {i \in hit : st.o[i].kind = "rst"}
      stored == [i \in idx |-> IF ForgetDue /\ st.o[i].kind # "rst" THEN [new[i] EXCEPT !.num = st.o[i].num] ELSE new[i]]
  IN [st EXCEPT !.o = new, !.w = app,
        !.snap = IF rst = {} THEN @
                 ELSE Append(@, [now |-> now, o |-> stored, num |-> st.o[CHOOSE i \in rst : TRUE].num, w |-> app])]

\* a new run: everything is written at the start
Begin(o, t0) == Output([now |-> t0, o |-> o, w |-> <<>>, snap |-> <<>>], TRUE)
\* top of the main loop, then one cycle of length d
CycleOut(st, d) == LET s == Output(st, FALSE) IN [s EXCEPT !.now = @ + d]
\* end of the run
End(st) == Output(st, TRUE)
\* continue from the k-th stored continuation: nothing is written at the start
Continue(st, k) == [now |-> st.snap[k].now, o |-> st.snap[k].o, w |-> <<>>, snap |-> <<>>]
=============================================================================
