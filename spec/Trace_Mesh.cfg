SPECIFICATION TSpec
CONSTANT NGhost = 4
INVARIANT Accept
POSTCONDITION AllAccepted
CHECK_DEADLOCK FALSE
