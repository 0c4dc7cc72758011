SPECIFICATION Spec
CONSTANTS Fault = "swap"
 Big = FALSE
INVARIANTS Safe Box
CHECK_DEADLOCK FALSE
