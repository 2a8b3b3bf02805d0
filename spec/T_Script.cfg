SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Script_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
