----------------------------- MODULE Trace_Join -----------------------------
(* Validates what the joining tools made of a set of files. Records:
     [kind = "vtk", id, status, pieces, names, pv, joined]   pieces: [nx, off]; pv[s][i]: numbers (bit patterns) of variable i (a component of a vector is
         a variable of its own) of piece s; names: of the variables; joined: [nx, names, v, comment, origin, spacing] and first: the same of the
         piece at the lower corner
     [kind = "refuse", id, status]         the set does not fit together
     [kind = "lis", id, status, lists, joined, head, sorted]      lists: entries [e, cpu, pid], e: code of all that stands in the entry *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
J == INSTANCE Join WITH Fault <- "none", P <- <<>>, A <- <<>>, pos <- <<>>, out <- <<>>, at <- <<>>
R == T[s]
Say(p, what) == p \/ (PrintT("WHY " \o ToString(R.id) \o " " \o what) /\ FALSE)
\* one step per variable; step 0: the header
Vtk == LET S == R.pieces IN
  IF k = 0 THEN /\ Say(R.status = 0, "join_vtk failed") /\ Say(J!IsBox(S), "the pieces do not fill a box")
                /\ Say(R.joined.nx = J!WholeNx(S), "dimensions " \o ToString(R.joined.nx))
                /\ Say(R.joined.comment = R.first.comment /\ R.joined.origin = R.first.origin /\ R.joined.spacing = R.first.spacing, "header")
                /\ Say(R.joined.names = R.names /\ Len(R.joined.v) = Len(R.names), "variables " \o ToString(R.joined.names))
  ELSE Say(J!IsJoined(R.joined.v[k], S, LAMBDA p : R.pv[p][k]), "values of " \o R.names[k])
Lis == LET All == J!Cat(R.lists) IN
  /\ Say(R.status = 0, "a tool failed")
  /\ Say(R.joined.n = Len(All) /\ J!SameBag(All, R.joined.list), "joined list")
  /\ Say(R.joined.head = R.head, "header of the joined list")
  /\ Say(R.sorted.n = Len(All) /\ J!SameBag(All, R.sorted.list), "sorted list")
  /\ Say(J!InOrder(R.sorted.list, LAMBDA x : x.cpu, LAMBDA x : x.pid), "order") /\ Say(R.sorted.head = R.head, "header of the sorted list")
Steps == IF R.kind = "vtk" THEN Len(R.names) + 1 ELSE 1
TInit == s \in 1..Len(T) /\ k = 0
TNext == k < Steps /\ k' = k + 1 /\ s' = s /\ CASE R.kind = "vtk" -> Vtk [] R.kind = "lis" -> Lis
                                               [] R.kind = "refuse" -> Say(R.status # 0, "not refused")
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Steps => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
