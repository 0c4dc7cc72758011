SPECIFICATION Spec
CONSTANTS
 NG = 1
 N1 = 2
 N2 = 2
 Cuts <- CutsDef
 Bcs = {1, 2, 4}
 Ordered = FALSE
INVARIANT Correct
CHECK_DEADLOCK FALSE
