SPECIFICATION Spec
CONSTANTS NX <- Boxes
          Vals = {1, 3}
          Fault = "none"
INVARIANT Equivariant Proper
CHECK_DEADLOCK FALSE
