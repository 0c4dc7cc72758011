SPECIFICATION Spec
CONSTANTS NX <- Small
          Vals = {0, 1, 3}
          Fault = "bias"
INVARIANT Equivariant Proper
CHECK_DEADLOCK FALSE
