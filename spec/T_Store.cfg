SPECIFICATION Spec
CONSTANTS StartState <- Store_Start
          Failing <- Store_Failing
          After <- Store_After
CHECK_DEADLOCK FALSE
