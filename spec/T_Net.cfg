SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Net_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
