SPECIFICATION Spec
CONSTANTS Fault = "none"
 Big = FALSE
INVARIANTS Safe Box
CHECK_DEADLOCK FALSE
