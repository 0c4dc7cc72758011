SPECIFICATION Spec
CONSTANTS N = 3
          MaxStep = 2
          Fluxes = {0, 1, 2}
          Pots = {0, 1, 3}
          Acc = 2
          Kind = "periodic"
          Fault = "start"
INVARIANT EnergyKept MassKept Momentum
CHECK_DEADLOCK FALSE
