SPECIFICATION Spec
INVARIANT Safe
CONSTANTS Fault = "none"
 Big = TRUE
CHECK_DEADLOCK FALSE
