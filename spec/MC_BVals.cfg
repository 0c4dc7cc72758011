SPECIFICATION Spec
CONSTANTS
 NG = 1
 N1 = 2
 N2 = 2
 Cuts <- CutsDef
 Bcs = {1, 2, 4}
 Ordered = TRUE
INVARIANT Correct
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
