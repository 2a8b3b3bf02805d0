SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Keys_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
