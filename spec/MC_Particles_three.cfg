SPECIFICATION Spec
CONSTANTS U = 1
 NG = 2
 FAULT = "none"
 ND = 3
 CUTS = 3
 REACH = 1
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
