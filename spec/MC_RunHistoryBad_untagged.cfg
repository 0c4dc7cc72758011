SPECIFICATION Spec
CONSTANTS N = 4
 NP = 2
 K = 5
 MaxCycle = 3
 MaxRestart = 1
 Fault = "untagged"
INVARIANTS OnHistory
CHECK_DEADLOCK FALSE
