SPECIFICATION Spec
INVARIANT Safe
CONSTANTS Fault = "closed"
 Big = FALSE
CHECK_DEADLOCK FALSE
