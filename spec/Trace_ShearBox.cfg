SPECIFICATION TSpec
CONSTANTS
 Cells = {}
 Blocks = {}
 Contents = {}
 Extra = {}
 Shifts = {}
 Fault = "none"
INVARIANT Accept
POSTCONDITION AllAccepted
CHECK_DEADLOCK FALSE
