SPECIFICATION TSpec
INVARIANT Accept
POSTCONDITION AllAccepted
CHECK_DEADLOCK FALSE
