SPECIFICATION Spec
CONSTANTS NRuns = 3
          ForgetDue = FALSE
CHECK_DEADLOCK FALSE
