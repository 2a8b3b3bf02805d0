SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Util_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
