SPECIFICATION GSpec
CONSTANTS BlindReset = FALSE
          MaxNp = 4
          MaxCyc = 5
          MaxSig = 3
CHECK_DEADLOCK FALSE
