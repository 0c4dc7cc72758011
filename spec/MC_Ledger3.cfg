SPECIFICATION Spec
CONSTANTS N = 4
          Refined <- R3
          MaxStep = 1
          Fluxes = {0, 1}
          Kind = "periodic"
          Fault = "none"
INVARIANT Conserved Closed Consistent
CHECK_DEADLOCK FALSE
