SPECIFICATION Spec
CONSTANTS
 Cells = {3}
 Blocks = {1, 2, 3}
 Contents = {0, 1}
 Extra <- ExtraDef
 Shifts <- ShiftsDef
 Fault = "neighbour"
INVARIANT Correct
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
