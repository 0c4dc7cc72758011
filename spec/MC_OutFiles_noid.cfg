SPECIFICATION Spec
INVARIANT Safe
CONSTANTS Fault = "noid"
 Big = FALSE
CHECK_DEADLOCK FALSE
