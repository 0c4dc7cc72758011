SPECIFICATION Spec
CONSTANTS MaxC = 4
          MaxT = 23
          MaxCyc = 60
CONSTRAINT Bound
INVARIANTS NoOvershoot CflBound StepPositive LandsOnEnd
PROPERTIES GrowthBound TimeAdvances Terminates
CHECK_DEADLOCK FALSE
