SPECIFICATION Spec
CONSTANTS U = 2
 NG = 2
 FAULT = "none"
 ND = 1
 CUTS = 1
 REACH = 3
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
