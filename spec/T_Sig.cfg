SPECIFICATION Spec
CONSTANTS StartState <- NoState
          Failing <- Sig_Failing
          After <- SameState
CHECK_DEADLOCK FALSE
