SPECIFICATION Spec
CONSTANTS N = 4
 Vals <- V1
 Mean = 9
 MaxKicks = 2
 Fault = "ghost"
INVARIANTS Mass Momentum BodyForce Residual
CHECK_DEADLOCK FALSE
