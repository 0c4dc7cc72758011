SPECIFICATION Spec
CONSTANTS N = 4
          A = 1
          B = 2
          MaxStep = 2
          Fault = "wallreset"
INVARIANT DivFree NetFlux Consistent
CHECK_DEADLOCK FALSE
