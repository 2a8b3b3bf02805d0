SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Mal_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
