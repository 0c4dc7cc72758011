SPECIFICATION Spec
CONSTANTS N = 3
          Refined <- R1
          MaxStep = 2
          Fluxes = {0, 1, 2}
          Kind = "periodic"
          Fault = "none"
INVARIANT Conserved Closed Consistent
CHECK_DEADLOCK FALSE
