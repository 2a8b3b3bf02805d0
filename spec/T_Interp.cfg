SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Interp_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
