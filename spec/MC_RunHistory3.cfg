SPECIFICATION Spec
CONSTANTS N = 4
 NP = 3
 K = 5
 MaxCycle = 2
 MaxRestart = 1
 Fault = "none"
INVARIANTS OnHistory InStep DiskOnHistory
CHECK_DEADLOCK FALSE
