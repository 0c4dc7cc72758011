SPECIFICATION Spec
CONSTANTS U = 1
 NG = 2
 FAULT = "corner"
 ND = 2
 CUTS = 2
 REACH = 1
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
