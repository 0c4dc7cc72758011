---------------------------- MODULE Trace_Ledger ----------------------------
(* Validates recorded runs against Ledger: after every cycle the totals over
   the composite mesh are those of the beginning, as far as the boundaries are
   closed.  record: [id, status, nd, cycles, bc, quant, rows, tol, source]
     bc:    "P" (periodic) or "W" (wall) or "O" (open) per axis
     quant: names of the totals: "d", "M1", "M2", "M3", "E", "B1", "B2", "B3", "s"
     tol:   bound, in the unit of rows
     rows:  per cycle [c, dev]: deviation of each total from its first value, in units of 1e-13 of its scale
     zero:  per cycle, further quantities that are zero (same unit); [c, v]: [n: name, x: value] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
R == T[s]
Abs(x) == IF x < 0 THEN -x ELSE x
Axes == 1..R.nd
Comp == [M1 |-> 1, M2 |-> 2, M3 |-> 3]
FComp == [B1 |-> 1, B2 |-> 2, B3 |-> 3]
\* what a closed box keeps: everything, except the momentum towards walls
Field(q) == q \in {"B1", "B2", "B3"}
\* of the field: the longitudinal component in one dimension always; the net flux
\* through a periodic box (on a refined mesh: of the components along ignorable axes)
KeptB(q) == \/ R.nd = 1 /\ q = "B1"
            \/ (\A m \in Axes : R.bc[m] = "P") /\ (R.refined => FComp[q] > R.nd)
\* what is not kept because of a source: a potential exerts forces ("M"; E is then the energy including that in the potential), cooling takes energy ("E")
Src(x) == \E i \in 1..Len(R.source) : R.source[i] = x
Kept(q) == IF Field(q) THEN KeptB(q) ELSE
           /\ \A m \in Axes : R.bc[m] # "O"
           /\ q \in {"M1", "M2", "M3"} => ~(Comp[q] \in Axes /\ R.bc[Comp[q]] = "W")
           /\ q \in {"M1", "M2", "M3"} => ~Src("M")
           /\ q = "E" => ~Src("E")
OkRow(r) == /\ \A i \in 1..Len(R.quant) : Kept(R.quant[i]) => Abs(r.dev[i]) <= R.tol
            /\ \A i \in 1..Len(r.zero) : Abs(r.zero[i].x) <= r.zero[i].tol
Shape == R.status = 0 /\ Len(R.rows) = R.cycles + 1 /\ \A i \in 1..Len(R.rows) : R.rows[i].c = i - 1 /\ Len(R.rows[i].dev) = Len(R.quant)
TInit == s \in 1..Len(T) /\ k = 0 /\ Shape
TNext == k < Len(R.rows) /\ k' = k + 1 /\ s' = s /\ OkRow(R.rows[k'])
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Len(R.rows) => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
