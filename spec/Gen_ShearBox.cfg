SPECIFICATION Spec
CONSTANTS
 CfgG = 5
 CfgF = 3
 CfgR = 5
CHECK_DEADLOCK FALSE
