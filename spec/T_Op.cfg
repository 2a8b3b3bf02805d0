SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Op_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
