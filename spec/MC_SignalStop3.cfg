SPECIFICATION Spec
CONSTANTS BlindReset = FALSE
          MaxNp = 3
          MaxCyc = 3
          MaxSig = 2
INVARIANTS SameCycle NotLate NotEarly WithinLimits LeavesTogether
PROPERTY Ends
CHECK_DEADLOCK TRUE
