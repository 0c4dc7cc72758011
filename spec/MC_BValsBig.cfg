SPECIFICATION Spec
CONSTANTS
 NG = 2
 N1 = 4
 N2 = 4
 Cuts <- CutsDef
 Bcs = {1, 2, 4}
 Ordered = TRUE
INVARIANT Correct
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
