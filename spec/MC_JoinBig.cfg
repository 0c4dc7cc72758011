SPECIFICATION Spec
CONSTANTS Fault = "none"
 Big = TRUE
INVARIANTS Safe Box
CHECK_DEADLOCK FALSE
