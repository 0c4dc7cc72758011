SPECIFICATION Spec
CONSTANTS Fault = "nosort"
 Big = FALSE
INVARIANTS Safe Box
CHECK_DEADLOCK FALSE
