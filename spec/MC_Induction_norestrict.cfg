SPECIFICATION Spec
CONSTANTS N = 4
          A = 1
          B = 3
          MaxStep = 1
          Fault = "norestrict"
INVARIANT DivFree NetFlux Consistent
CHECK_DEADLOCK FALSE
