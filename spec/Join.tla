-------------------------------- MODULE Join --------------------------------
(* Joining the files that the processes of a parallel run wrote. A piece is [nx, off, v]: zones, offset and the values in the order in which they
   stand in the file (first direction fastest). The machine below sorts the pieces into an array by their origins and then reads every file once
   from its start to its end, while it writes the joined file in the order of the undivided Domain. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANT Fault
VARIABLES P,        \* the pieces, in the order of the command line
          A,        \* the pieces after sorting
          pos,      \* per sorted piece: numbers read so far
          out,      \* the joined numbers
          at        \* next zone of the joined Domain <<i, j, k>>, or <<>> before sorting and after the end
Ix(nx, p) == 1 + p[1] + nx[1]*(p[2] + nx[2]*p[3])
Lo(S, m) == Min({S[q].off[m] : q \in DOMAIN S})
Hi(S, m) == Max({S[q].off[m] + S[q].nx[m] : q \in DOMAIN S})
\* the undivided Domain
WholeOff(S) == <<Lo(S, 1), Lo(S, 2), Lo(S, 3)>>
WholeNx(S) == <<Hi(S, 1) - Lo(S, 1), Hi(S, 2) - Lo(S, 2), Hi(S, 3) - Lo(S, 3)>>
Holds(x, p) == \A m \in 1..3 : x.off[m] <= p[m] /\ p[m] < x.off[m] + x.nx[m]
Zone(nx, off, q) == <<off[1] + ((q - 1) % nx[1]), off[2] + (((q - 1) \div nx[1]) % nx[2]), off[3] + ((q - 1) \div (nx[1]*nx[2]))>>
\* X is the joined sequence of the pieces S, whose values are Val(piece)
IsJoined(X, S, Val(_)) ==
  LET nx == WholeNx(S)
      off == WholeOff(S)
  IN /\ Len(X) = nx[1]*nx[2]*nx[3]
     /\ \A s \in DOMAIN S : LET V == Val(s) IN
          /\ Len(V) = S[s].nx[1]*S[s].nx[2]*S[s].nx[3]
          /\ \A q \in 1..Len(V) : LET z == Zone(S[s].nx, S[s].off, q) IN X[Ix(nx, <<z[1] - off[1], z[2] - off[2], z[3] - off[3]>>)] = V[q]
\* the pieces fill a box
IsBox(S) == LET nx == WholeNx(S)
                vol(x) == x.nx[1]*x.nx[2]*x.nx[3]
            IN /\ FoldSet(LAMBDA s, a : a + vol(S[s]), 0, DOMAIN S) = nx[1]*nx[2]*nx[3]
               /\ \A s, t \in DOMAIN S : s # t => \E m \in 1..3 : S[s].off[m] + S[s].nx[m] <= S[t].off[m] \/ S[t].off[m] + S[t].nx[m] <= S[s].off[m]
-----------------------------------------------------------------------------
Rank(m) == {P[q].off[m] : q \in DOMAIN P}
Place(x, m) == Cardinality({o \in Rank(m) : o < x.off[m]})
Sort == /\ at = <<>> /\ out = <<>>
        /\ A' = IF Fault = "nosort" THEN P
                ELSE IF Fault = "swap" THEN \* first and second direction exchanged
                     [q \in DOMAIN P |-> CHOOSE x \in {P[s] : s \in DOMAIN P} :
                        q = 1 + Place(x, 2) + Cardinality(Rank(2))*(Place(x, 1) + Cardinality(Rank(1))*Place(x, 3))]
                ELSE [q \in DOMAIN P |-> CHOOSE x \in {P[s] : s \in DOMAIN P} :
                        q = 1 + Place(x, 1) + Cardinality(Rank(1))*(Place(x, 2) + Cardinality(Rank(2))*Place(x, 3))]
        /\ pos' = [q \in DOMAIN P |-> 0] /\ at' = <<0, 0, 0>> /\ UNCHANGED <<P, out>>
\* the piece with the next zone: sizes are taken from the pieces along the axes
Along(m, c) == \* number of the column of pieces along direction m that holds coordinate c
  LET st == CASE m = 1 -> 1 [] m = 2 -> Cardinality(Rank(1)) [] m = 3 -> Cardinality(Rank(1))*Cardinality(Rank(2))
      size(i) == A[1 + i*st].nx[m]
      upto(i) == FoldSet(LAMBDA j, a : a + size(j), 0, 0..i)
  IN Min({i \in 0..(Cardinality(Rank(m)) - 1) : c < upto(i)} \cup {Cardinality(Rank(m)) - 1})
Read == /\ at # <<>>
        /\ LET n == WholeNx(P)
               q == 1 + Along(1, at[1]) + Cardinality(Rank(1))*(Along(2, at[2]) + Cardinality(Rank(2))*Along(3, at[3]))
           IN /\ pos[q] < Len(A[q].v)
              /\ out' = Append(out, A[q].v[pos[q] + 1]) /\ pos' = [pos EXCEPT ![q] = @ + 1]
              /\ at' = IF at[1] + 1 < n[1] THEN <<at[1] + 1, at[2], at[3]>>
                       ELSE IF at[2] + 1 < n[2] THEN <<0, at[2] + 1, at[3]>>
                       ELSE IF at[3] + 1 < n[3] THEN <<0, 0, at[3] + 1>> ELSE <<>>
        /\ UNCHANGED <<P, A>>
Next == Sort \/ Read
Done == at = <<>> /\ out # <<>>
\* every behaviour ends with the undivided data
Right == Done => IsJoined(out, P, LAMBDA s : P[s].v) /\ \A q \in DOMAIN A : pos[q] = Len(A[q].v)
Goes == at # <<>> => ENABLED Read
Safe == Right /\ Goes
-----------------------------------------------------------------------------
\* particle lists: the joined list is the lists one after the other; sorting keeps every entry
RECURSIVE Cat(_)
Cat(L) == IF L = <<>> THEN <<>> ELSE Head(L) \o Cat(Tail(L))
Count(L, x) == Cardinality({i \in DOMAIN L : L[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
InOrder(L, Cpu(_), Id(_)) == \A i \in 1..(Len(L) - 1) : Cpu(L[i]) < Cpu(L[i+1]) \/ (Cpu(L[i]) = Cpu(L[i+1]) /\ Id(L[i]) <= Id(L[i+1]))
=============================================================================
