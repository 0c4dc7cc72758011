SPECIFICATION Spec
CONSTANTS NX <- Small
          Vals = {1, 3}
          Fault = "none"
INVARIANT Equivariant Proper
CHECK_DEADLOCK FALSE
