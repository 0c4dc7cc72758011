SPECIFICATION Spec
CONSTANTS N = 5
 Vals <- V1
 Mean = 9
 MaxKicks = 2
 Fault = "none"
INVARIANTS Mass Momentum BodyForce Residual
CHECK_DEADLOCK FALSE
