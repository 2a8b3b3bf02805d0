SPECIFICATION Spec
CONSTANTS StartState <- Tx_Start
          Failing <- Tx_Failing
          After <- Tx_After
CHECK_DEADLOCK FALSE
