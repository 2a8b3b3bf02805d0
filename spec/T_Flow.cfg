SPECIFICATION Spec
CONSTANTS StartState <- Flow_Start
          Failing <- Flow_Failing
          After <- Flow_After
CHECK_DEADLOCK FALSE
