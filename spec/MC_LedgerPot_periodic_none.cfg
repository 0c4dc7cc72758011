SPECIFICATION Spec
CONSTANTS N = 3
          MaxStep = 2
          Fluxes = {0, 1}
          Pots = {0, 1}
          Acc = 2
          Kind = "periodic"
          Fault = "none"
INVARIANT EnergyKept MassKept Momentum
CHECK_DEADLOCK FALSE
