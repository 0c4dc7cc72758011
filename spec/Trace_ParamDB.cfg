SPECIFICATION TSpec
INVARIANT Accept
CHECK_DEADLOCK FALSE
POSTCONDITION AllAccepted
