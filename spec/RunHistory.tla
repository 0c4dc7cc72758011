----------------------------- MODULE RunHistory -----------------------------
(* A run of the code as a distributed computation (main.c, bvals_*.c, new_dt.c,
   restart.c): the zones of the mesh are divided among processes; in each
   cycle every process exchanges its edge zones with its neighbours (messages
   arrive in any order relative to other channels), takes part in a global
   reduction of the time step, advances its zones, and may write its part of
   a checkpoint.  At any moment the whole run may be lost and be continued
   from a complete checkpoint.  Properties C04 and C09: there is one history,
   the one of the undivided and uninterrupted run, and every process of every
   run is at all times at a point of it.

   The flow itself is abstract: a zone's new value depends on its neighbours
   and on the step; the step depends on all zones and on the previous step
   (it may at most double), so that nothing but the exact global state of a
   cycle determines the next one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,            \* number of zones (a ring)
          NP,           \* number of processes
          K,            \* values of a zone
          MaxCycle,
          MaxRestart,
          Fault         \* "none", or a deliberately wrong variant
Zones == 0..(N-1)
Procs == 1..NP
Prev(z) == (z + N - 1) % N
Succ(z) == (z + 1) % N
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
MinOf(a, b) == IF a < b THEN a ELSE b

\* one history ---------------------------------------------------------------
Limit(v) == 1 + (v % 3)                          \* largest stable step of a zone with value v
NewDt(u, dt) == MinOf(2*dt, Min({Limit(u[z]) : z \in Zones}))
NewVal(l, v, r, dt) == (l + 2*v + r + dt) % K
Advance(s) == LET v == [z \in Zones |-> NewVal(s.u[Prev(z)], s.u[z], s.u[Succ(z)], s.dt)]
              IN [u |-> v, dt |-> NewDt(v, s.dt), t |-> s.t + s.dt]
First(u0) == [u |-> u0, dt |-> 1, t |-> 0]
RECURSIVE History(_, _)
History(u0, c) == IF c = 0 THEN First(u0) ELSE Advance(History(u0, c - 1))

\* distributed run -------------------------------------------------------------
VARIABLES u0, owner,    \* the problem and the decomposition
          val,          \* [Zones -> value], each held by its owner
          t, dt, cyc,   \* of each process
          pc,           \* what each process does next
          gl, gr,       \* ghost values received by each process (-1: none)
          chan,         \* [Procs \X Procs -> Seq]  messages on their way: [side, v]
          red,          \* the reduction under way: [Procs -> contribution or -1]
          disk,         \* [0..MaxCycle -> [Procs -> part or NoPart]]
          restarts
vars == <<u0, owner, val, t, dt, cyc, pc, gl, gr, chan, red, disk, restarts>>
Own(p) == {z \in Zones : owner[z] = p}
LoZ(p) == CHOOSE z \in Own(p) : (owner[Prev(z)] # p) \/ (Own(p) = Zones /\ z = 0)
HiZ(p) == CHOOSE z \in Own(p) : (owner[Succ(z)] # p) \/ (Own(p) = Zones /\ z = N - 1)
LeftOf(p) == owner[Prev(LoZ(p))]
RightOf(p) == owner[Succ(HiZ(p))]
NoPart == [have |-> FALSE, u |-> <<>>, t |-> 0, dt |-> 0]
\* contiguous divisions of the ring in which every process owns something
Owners == {f \in [Zones -> Procs] : /\ f[0] = 1 /\ {f[z] : z \in Zones} = Procs
                                    /\ \A z \in 1..(N-1) : f[z] \in {f[z-1], f[z-1] + 1}}
Empty == [a \in Procs \X Procs |-> <<>>]
Init == /\ u0 \in [Zones -> 0..1] /\ owner \in Owners
        /\ val = u0 /\ t = [p \in Procs |-> 0] /\ dt = [p \in Procs |-> 1] /\ cyc = [p \in Procs |-> 0]
        /\ pc = [p \in Procs |-> "send"] /\ gl = [p \in Procs |-> -1] /\ gr = gl
        /\ chan = Empty /\ red = [p \in Procs |-> -1]
        /\ disk = [c \in 0..MaxCycle |-> [p \in Procs |-> NoPart]] /\ restarts = 0
Send(p) == /\ pc[p] = "send" /\ cyc[p] < MaxCycle
           /\ LET a == <<p, LeftOf(p)>>
                  b == <<p, RightOf(p)>>
                  c1 == [chan EXCEPT ![a] = Append(@, [side |-> "R", v |-> val[LoZ(p)]])]
              IN chan' = [c1 EXCEPT ![b] = Append(@, [side |-> "L", v |-> val[HiZ(p)]])]
           /\ pc' = [pc EXCEPT ![p] = "recv"]
           /\ UNCHANGED <<u0, owner, val, t, dt, cyc, gl, gr, red, disk, restarts>>
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
\* messages between a pair of processes arrive in any order and are matched by the side they are for (their tag);
\* Fault = "untagged" drops that: where both neighbours are the same process the two messages may be mistaken
Recv(p) == /\ pc[p] = "recv"
           /\ \E q \in Procs : \E i \in 1..Len(chan[<<q, p>>]) :
                LET m == chan[<<q, p>>][i] IN
                \E side \in (IF Fault = "untagged" THEN {"L", "R"} ELSE {m.side}) :
                /\ IF side = "L" THEN gl[p] = -1 /\ gl' = [gl EXCEPT ![p] = m.v] /\ gr' = gr
                                 ELSE gr[p] = -1 /\ gr' = [gr EXCEPT ![p] = m.v] /\ gl' = gl
                /\ chan' = [chan EXCEPT ![<<q, p>>] = Drop(@, i)]
           /\ UNCHANGED <<u0, owner, val, t, dt, cyc, pc, red, disk, restarts>>
Step(p) == /\ pc[p] = "recv" /\ gl[p] # -1 /\ gr[p] # -1
           /\ val' = [z \in Zones |-> IF z \in Own(p)
                        THEN NewVal(IF z = LoZ(p) THEN gl[p] ELSE val[Prev(z)], val[z],
                                    IF z = HiZ(p) THEN gr[p] ELSE val[Succ(z)], dt[p])
                        ELSE val[z]]
           /\ t' = [t EXCEPT ![p] = @ + dt[p]]
           /\ gl' = [gl EXCEPT ![p] = -1] /\ gr' = [gr EXCEPT ![p] = -1]
           /\ pc' = [pc EXCEPT ![p] = "offer"]
           /\ UNCHANGED <<u0, owner, dt, cyc, chan, red, disk, restarts>>
LocalLimit(p) == Min({Limit(val[z]) : z \in Own(p)})
Offer(p) == /\ pc[p] = "offer" /\ red[p] = -1
            /\ red' = [red EXCEPT ![p] = LocalLimit(p)]
            /\ pc' = [pc EXCEPT ![p] = "wait"]
            /\ UNCHANGED <<u0, owner, val, t, dt, cyc, gl, gr, chan, disk, restarts>>
\* the reduction completes for all when all have contributed
Reduce == /\ \A p \in Procs : pc[p] = "wait"
          /\ dt' = [p \in Procs |-> IF Fault = "localdt" THEN MinOf(2*dt[p], red[p])
                                    ELSE MinOf(2*dt[p], Min({red[q] : q \in Procs}))]
          /\ red' = [p \in Procs |-> -1]
          /\ cyc' = [p \in Procs |-> cyc[p] + 1]
          /\ pc' = [p \in Procs |-> "send"]
          /\ UNCHANGED <<u0, owner, val, t, gl, gr, chan, disk, restarts>>
\* a process writes its part of the checkpoint of the cycle it is at
Write(p) == /\ pc[p] = "send" /\ ~disk[cyc[p]][p].have
            /\ disk' = [disk EXCEPT ![cyc[p]][p] = [have |-> TRUE, u |-> [z \in Own(p) |-> val[z]], t |-> t[p],
                                                   dt |-> IF Fault = "nodt" THEN 0 ELSE dt[p]]]
            /\ UNCHANGED <<u0, owner, val, t, dt, cyc, pc, gl, gr, chan, red, restarts>>
\* everything is lost; a new run continues from a complete checkpoint
Restart(c) == /\ restarts < MaxRestart
              /\ \A p \in Procs : disk[c][p].have
              /\ val' = [z \in Zones |-> disk[c][owner[z]].u[z]]
              /\ t' = [p \in Procs |-> disk[c][p].t]
              /\ dt' = [p \in Procs |-> IF Fault = "nodt" THEN Min({Limit(disk[c][owner[z]].u[z]) : z \in Zones}) ELSE disk[c][p].dt]
              /\ cyc' = [p \in Procs |-> c]
              /\ pc' = [p \in Procs |-> "send"] /\ gl' = [p \in Procs |-> -1] /\ gr' = [p \in Procs |-> -1]
              /\ chan' = Empty /\ red' = [p \in Procs |-> -1] /\ restarts' = restarts + 1
              /\ UNCHANGED <<u0, owner, disk>>
Next == \/ \E p \in Procs : Send(p) \/ Recv(p) \/ Step(p) \/ Offer(p) \/ Write(p)
        \/ Reduce
        \/ \E c \in 0..MaxCycle : Restart(c)
Spec == Init /\ [][Next]_vars

\* every process that is between two cycles is on the one history
OnHistory == \A p \in Procs : pc[p] = "send" =>
               LET h == History(u0, cyc[p]) IN /\ t[p] = h.t /\ dt[p] = h.dt
                                               /\ \A z \in Own(p) : val[z] = h.u[z]
\* and nobody is ever more than one exchange ahead
InStep == \A p, q \in Procs : cyc[p] = cyc[q]
\* checkpoints hold points of the history
DiskOnHistory == \A c \in 0..MaxCycle : \A p \in Procs : disk[c][p].have =>
                   LET h == History(u0, c) IN /\ disk[c][p].t = h.t /\ (Fault # "nodt" => disk[c][p].dt = h.dt)
                                              /\ \A z \in Own(p) : disk[c][p].u[z] = h.u[z]
=============================================================================
