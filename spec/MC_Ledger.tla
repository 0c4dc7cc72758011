---------------------------- MODULE MC_Ledger ------------------------------
EXTENDS Ledger
R0 == <<>>
R1 == << <<2, 4>> >>                 \* one refined Domain inside
R2 == << <<0, 4>>, <<2, 6>> >>       \* two levels, the first at the edge of the mesh
R3 == << <<2, 6>>, <<6, 10>> >>      \* two levels inside
=============================================================================
