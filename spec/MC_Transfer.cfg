SPECIFICATION Spec
CONSTANTS V = {0, 1, 3, 4, 7}
INVARIANT Average Linear Monotone Mirror Divergence
CHECK_DEADLOCK FALSE
