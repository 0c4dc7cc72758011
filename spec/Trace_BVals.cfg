SPECIFICATION TSpec
CONSTANT NG = 4
INVARIANT Accept
POSTCONDITION AllAccepted
CHECK_DEADLOCK FALSE
