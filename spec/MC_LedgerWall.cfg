SPECIFICATION Spec
CONSTANTS N = 3
          Refined <- R2
          MaxStep = 1
          Fluxes = {0, 1}
          Kind = "wall"
          Fault = "none"
INVARIANT Conserved Closed Consistent
CHECK_DEADLOCK FALSE
