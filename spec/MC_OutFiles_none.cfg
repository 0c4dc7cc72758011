SPECIFICATION Spec
INVARIANT Safe
CONSTANTS Fault = "none"
 Big = FALSE
CHECK_DEADLOCK FALSE
