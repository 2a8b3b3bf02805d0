SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Ec_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
