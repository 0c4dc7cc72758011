SPECIFICATION TSpec
CONSTANTS ForgetDue = FALSE
INVARIANT Accept
CHECK_DEADLOCK FALSE
POSTCONDITION AllAccepted
