--------------------------- MODULE Trace_Symmetry ---------------------------
(* Validates recorded solutions of one problem in several frames.
   record: [id, status, nx, t, vars, frames]
     vars:   base solution: sequence of [kind, v]: kind "s": v is a sequence over zones; "p", "a": v[m] is one
     frames: sequence of [p, mir, nx, t, vars]
   Values are integers in a common unit; tol in that unit; t: times, likewise. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.VF_TRACE)
ASSUME \A x \in 1..Len(T) : TLCSet(x, FALSE)
VARIABLES s, k
S == INSTANCE Symmetry WITH NX <- {}, Vals <- {}, Fault <- "none", q <- 0, v <- 0, nx <- 0
R == T[s]
OkVar(f, a, b) == /\ a.kind = b.kind
                  /\ IF a.kind = "s" THEN S!SameScalar(R.nx, f.p, f.mir, f.nx, a.v, b.v, R.tol)
                     ELSE S!SameVector(R.nx, f.p, f.mir, f.nx, a.kind, a.v, b.v, R.tol)
OkFrame(f) == /\ S!Fits(R.nx, f.p, f.nx)
              /\ S!Abs(f.t - R.t) <= R.tol
              /\ Len(f.vars) = Len(R.vars)
              /\ \A i \in 1..Len(R.vars) : OkVar(f, R.vars[i], f.vars[i])
TInit == s \in 1..Len(T) /\ k = 0 /\ R.status = 0
TNext == k < Len(R.frames) /\ k' = k + 1 /\ s' = s /\ OkFrame(R.frames[k'])
TSpec == TInit /\ [][TNext]_<<s, k>>
Accept == k = Len(R.frames) => TLCSet(s, TRUE)
AllAccepted == \A x \in 1..Len(T) : TLCGet(x) \/ PrintT(<<"REJECTED", x, T[x].id>>)
=============================================================================
