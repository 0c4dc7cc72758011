--------------------------- MODULE Trace_ShearBox ---------------------------
(* Rows displaced by the real code against ShearBox.  A record holds, in units
   of 1/4096:
     rows: [n: name, src, got, s, wide, gh: <<position, content>> ...]: a row
           before and after; gh: ghost zones at its ends (positions outside 1..N)
     mean: [n, a, b, got]: contents that are the mean of two others
     same: [n, a, b]: equal sequences (divergence before and after, field wound
           up by the shear, boundary face left alone)                        *)
EXTENDS ShearBox, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
Tol == 2
Say(p, id, what) == p \/ ~PrintT("WHY " \o ToString(id) \o " " \o what)
RowOk(id, r) ==
  /\ Say(Len(r.got) = Len(r.src), id, r.n \o ": incomplete row")
  /\ Say(Kept(r.src, r.got, Tol), id, r.n \o ": row total changed from " \o ToString(Total(r.src)) \o " to " \o ToString(Total(r.got)) \o " displacement " \o ToString(r.s))
  /\ Say(Exact(r.src, r.got, r.s, Tol), id, r.n \o ": not an exact shift by " \o ToString(r.s) \o "/8 zones")
  /\ Say(Curves(r.src, r.got, r.s, Tol), id, r.n \o ": smooth stretch not displaced by " \o ToString(r.s) \o "/8 zones")
  /\ Say(Ranges(r.src, r.got, r.s, Tol, r.wide), id, r.n \o ": out of range, displacement " \o ToString(r.s) \o "/8")
  /\ Say(\A i \in 1..Len(r.gh) : Abs(r.gh[i][2] - At(r.got, r.gh[i][1])) <= 1, id, r.n \o ": ends are not the periodic images")
MeanOk(id, m) == Say(\A j \in 1..Len(m.got) : Abs(2*m.got[j] - m.a[j] - m.b[j]) <= 4, id, m.n \o ": not the mean of its faces")
SameOk(id, m) == Say(Len(m.a) = Len(m.b) /\ \A j \in 1..Len(m.a) : Abs(m.a[j] - m.b[j]) <= m.tol, id, m.n)
RecordOk(r) == /\ \A i \in 1..Len(r.rows) : RowOk(r.id, r.rows[i])
               /\ \A i \in 1..Len(r.mean) : MeanOk(r.id, r.mean[i])
               /\ \A i \in 1..Len(r.same) : SameOk(r.id, r.same[i])
VARIABLE x
TInit == x \in 1..Len(T) /\ row = <<>> /\ s = 0 /\ g = 0 /\ buf = <<>> /\ box = {} /\ res = <<>> /\ sent = {}
TSpec == TInit /\ [][FALSE]_<<x, vars>>
Accept == RecordOk(T[x]) => TLCSet(x, TRUE)
AllAccepted == \A y \in 1..Len(T) : TLCGet(y) \/ PrintT(<<"REJECTED", y, T[y].id>>)
=============================================================================
