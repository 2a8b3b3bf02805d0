SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Unit_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
