SPECIFICATION Spec
CONSTANTS BlindReset = TRUE
          MaxNp = 2
          MaxCyc = 3
          MaxSig = 2
INVARIANTS SameCycle NotLate NotEarly WithinLimits LeavesTogether
