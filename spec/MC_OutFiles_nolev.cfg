SPECIFICATION Spec
INVARIANT Safe
CONSTANTS Fault = "nolev"
 Big = FALSE
CHECK_DEADLOCK FALSE
