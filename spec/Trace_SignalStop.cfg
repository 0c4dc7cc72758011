SPECIFICATION TSpec
CONSTANTS BlindReset = FALSE
INVARIANT Accept
CHECK_DEADLOCK FALSE
POSTCONDITION AllAccepted
