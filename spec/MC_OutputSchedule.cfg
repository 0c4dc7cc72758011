SPECIFICATION Spec
CONSTANTS ForgetDue = FALSE
          MaxCyc = 3
          Dts = {1, 2, 3}
          Steps = {1, 2, 4}
          MaxRestarts = 1
INVARIANTS Consecutive TimesOrdered InitialWritten FinalWritten Progress
