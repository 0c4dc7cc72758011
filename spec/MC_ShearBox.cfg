SPECIFICATION Spec
CONSTANTS
 Cells = {4}
 Blocks = {1, 2, 3}
 Contents = {0, 1, 5}
 Extra <- ExtraDef
 Shifts <- ShiftsDef
 Fault = "none"
INVARIANT Correct
INVARIANT NeverStuck
INVARIANT SameByFlux
INVARIANT AgreesWithExchange
CHECK_DEADLOCK FALSE
