---------------------------- MODULE MC_OutFiles -----------------------------
(* Exhaustive: every division of a small 1D/2D Mesh (a root Domain and a refined one) and pairs of blocks. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Fault, Big
VARIABLES files, todo, G, B
NR == 6
\* divisions of a root Domain of NR x 2 zones and a level-1 Domain (zones 2..5, 2 rows)
Cuts1 == {<<6>>, <<2, 4>>} \cup (IF Big THEN {<<2, 2, 2>>, <<3, 3>>} ELSE {})
RECURSIVE SumTo(_, _)
SumTo(c, n) == IF n = 0 THEN 0 ELSE c[n] + SumTo(c, n-1)
Row(c, l, d, o, n2) == {[rank |-> r - 1, lev |-> l, dom |-> d, nx |-> <<c[r], n2, 1>>, off |-> <<o + SumTo(c, r-1), 0, 0>>] : r \in 1..Len(c)}
Meshes == {Row(c, 0, 0, 0, n2) \cup x : c \in Cuts1, n2 \in {1, 2}, x \in {{}} \cup {Row(e, 1, 0, 2, 2) : e \in {<<4>>, <<2, 2>>}}}
Off == [on |-> FALSE, lo |-> 0, hi |-> 0]
Reds == {Off} \cup {[on |-> TRUE, lo |-> a, hi |-> a + w] : a \in {0, 20, 32, 40, 95} \cup (IF Big THEN {-8, 47, 48, 96} ELSE {}), w \in {0, 16} \cup (IF Big THEN {5, 64} ELSE {})}
Var(i, r, lv) == [fmt |-> "tab", out |-> "d", id |-> i, lev |-> lv, dom |-> -1, red |-> <<r[1], r[2], Off>>]
BlockSets == {{[fmt |-> "tab", out |-> "cons", id |-> "out1", lev |-> -1, dom |-> -1, red |-> <<Off, Off, Off>>], Var("out2", r, -1), Var("out3", s, lv)} :
              r \in Reds \X {Off}, s \in {Off} \X (IF Big THEN Reds ELSE {Off, [on |-> TRUE, lo |-> 16, hi |-> 16]}), lv \in {-1, 1}}
O == INSTANCE OutFiles WITH Grids <- G, Blocks <- B
MCInit == G \in Meshes /\ B \in BlockSets /\ O!Init
\* the order of writing matters only for overwriting: write in every order of blocks for one Grid at a time
MCNext == O!Next /\ UNCHANGED <<G, B>>
\* files are a set: any order gives the same outcome, so one order is explored
First == CHOOSE w \in todo : TRUE
Det == todo # {} /\ todo' = todo \ {First} /\ files' = Append(files, [name |-> O!Name(First[1], First[2], 0), blk |-> First[1], grid |-> First[2], data |-> O!Content(First[1], First[2])])
       /\ UNCHANGED <<G, B>>
Spec == MCInit /\ [][Det]_<<files, todo, G, B>>
Safe == O!Safe
=============================================================================
