------------------------------ MODULE OutFiles ------------------------------
(* What the output system writes. A Mesh is a sequence of Grids, one output block is written by every process for every Grid it touches; a
   file is a name and a content. Lengths are in 1/16 of a root zone, so a zone of level l spans 16/2^l.
     grid  [rank, lev, dom, nx, off]        nx, off: zones and offset (in zones of its level from the edge of the root Domain), per direction
     block [fmt, out, id, lev, dom, red]    lev, dom: -1 = all; red[m] = [on, lo, hi]: direction m reduced to the range lo..hi
   The state machine writes the files of all blocks in any order; the operators are also the oracle for files written by the real code. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANT Fault
VARIABLES Grids, Blocks,      \* the Mesh and the output blocks (constant during a run)
          files, todo
Pow2(l) == CASE l = 0 -> 1 [] l = 1 -> 2 [] l = 2 -> 4 [] OTHER -> 8
Width(g) == 16 \div Pow2(g.lev)
Active(g, m) == g.nx[m] > 1
\* a zone holds its lower edge and not its upper one
In(g, m, z, lo, hi) == LET a == (g.off[m] + z)*Width(g) IN
   IF Fault = "closed" THEN a <= hi /\ a + Width(g) >= lo ELSE a <= hi /\ a + Width(g) > lo
Chosen(g, m, r) == IF r.on /\ Active(g, m) THEN {z \in 0..(g.nx[m] - 1) : In(g, m, z, r.lo, r.hi)} ELSE 0..(g.nx[m] - 1)
Dump(b) == b.out \in {"cons", "prim"}
Matches(b, g) == (b.lev = -1 \/ b.lev = g.lev) /\ (b.dom = -1 \/ b.dom = g.dom)
Touches(b, g) == Matches(b, g) /\ (Dump(b) \/ \A m \in 1..3 : Chosen(g, m, b.red[m]) # {})
Name(b, g, num) == [rank |-> g.rank, lev |-> IF Fault = "nolev" THEN 0 ELSE g.lev, dom |-> g.dom, num |-> num,
                    id |-> IF Dump(b) \/ Fault = "noid" THEN "" ELSE b.id, ext |-> b.fmt]
\* zones of Grid g, first direction fastest
Ix(g, i, j, k) == 1 + i + g.nx[1]*(j + g.nx[2]*k)
Kept(b, g, m) == Dump(b) \/ ~(b.red[m].on /\ Active(g, m))
Size(b, g, m) == IF Kept(b, g, m) THEN g.nx[m] ELSE 1
Count(b, g) == Size(b, g, 1)*Size(b, g, 2)*Size(b, g, 3)
\* zones behind the q-th number (from 0) of the file of block b and Grid g
Behind(b, g, q) ==
  LET p == <<q % Size(b, g, 1), (q \div Size(b, g, 1)) % Size(b, g, 2), q \div (Size(b, g, 1)*Size(b, g, 2))>>
      Z(m) == IF Kept(b, g, m) THEN {p[m]} ELSE Chosen(g, m, b.red[m])
  IN {Ix(g, i, j, k) : i \in Z(1), j \in Z(2), k \in Z(3)}
Sum(v, S) == FoldSet(LAMBDA i, a : a + v[i], 0, S)
Abs(x) == IF x < 0 THEN -x ELSE x
\* x: the number in the file; v: values of the zones of the Grid
Average(x, v, S) == Abs(Cardinality(S)*x - Sum(v, S)) <= 2*Cardinality(S)
-----------------------------------------------------------------------------
Init == files = <<>> /\ todo = {<<b, g>> \in Blocks \X Grids : Touches(b, g)}
Content(b, g) == [q \in 0..(Count(b, g) - 1) |-> Behind(b, g, q)]
Write == \E w \in todo :
           /\ todo' = todo \ {w}
           /\ files' = Append(files, [name |-> Name(w[1], w[2], 0), blk |-> w[1], grid |-> w[2], data |-> Content(w[1], w[2])])
           /\ UNCHANGED <<Grids, Blocks>>
Next == Write
Spec == Init /\ [][Next]_<<Grids, Blocks, files, todo>>
\* no file is overwritten
NoOverwrite == \A x, y \in 1..Len(files) : x # y => files[x].name # files[y].name
\* position (in the Domain) of zone z of Grid g
At(g, z) == <<g.off[1] + ((z - 1) % g.nx[1]), g.off[2] + (((z - 1) \div g.nx[1]) % g.nx[2]), g.off[3] + ((z - 1) \div (g.nx[1]*g.nx[2]))>>
DomOf(l, d) == {g \in Grids : g.lev = l /\ g.dom = d}
ZonesOf(g) == {At(g, z) : z \in 1..(g.nx[1]*g.nx[2]*g.nx[3])}
\* the undivided Domain as one Grid
Whole(l, d) == LET G == DomOf(l, d)
                   lo(m) == Min({g.off[m] : g \in G})
                   hi(m) == Max({g.off[m] + g.nx[m] : g \in G})
               IN [rank |-> 0, lev |-> l, dom |-> d, off |-> <<lo(1), lo(2), lo(3)>>, nx |-> <<hi(1) - lo(1), hi(2) - lo(2), hi(3) - lo(3)>>]
Doms == {<<g.lev, g.dom>> : g \in Grids}
Pos(f, q) == {At(f.grid, z) : z \in f.data[q]}
Used(f) == UNION {Pos(f, q) : q \in DOMAIN f.data}
\* together the files of a block hold every zone an undivided run would use, once
Complete == todo = {} =>
  \A b \in Blocks : \A ld \in Doms :
    LET F == {x \in 1..Len(files) : files[x].blk = b /\ files[x].grid.lev = ld[1] /\ files[x].grid.dom = ld[2]}
        W == Whole(ld[1], ld[2])
        want == IF Touches(b, W) THEN UNION {{At(W, z) : z \in Behind(b, W, q)} : q \in 0..(Count(b, W) - 1)} ELSE {}
    IN /\ UNION {Used(files[x]) : x \in F} = want
       /\ \A x, y \in F : x # y => Used(files[x]) \cap Used(files[y]) = {}
\* a reduction to a single coordinate inside a Domain is one layer of zones: every other position appears once
OneLayer == todo = {} =>
  \A b \in Blocks : (~Dump(b) /\ \A m \in 1..3 : b.red[m].on => b.red[m].lo = b.red[m].hi) =>
    \A x \in 1..Len(files) : files[x].blk = b => \A q \in DOMAIN files[x].data : Cardinality(files[x].data[q]) = 1
Safe == NoOverwrite /\ Complete /\ OneLayer
=============================================================================
