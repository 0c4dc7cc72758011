SPECIFICATION Spec
CONSTANTS N = 3
          MaxStep = 2
          Fluxes = {0, 1}
          Pots = {0, 3}
          Acc = 2
          Kind = "wall"
          Fault = "none"
INVARIANT EnergyKept MassKept Momentum
CHECK_DEADLOCK FALSE
