SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Uri_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
