---------------------------- MODULE MC_Symmetry ----------------------------
EXTENDS Symmetry
Boxes == {<<3, 1, 1>>, <<3, 2, 1>>, <<2, 2, 2>>}
Small == {<<3, 1, 1>>, <<3, 2, 1>>}
=============================================================================
