SPECIFICATION Spec
CONSTANTS StartState <- HD_Start
          Failing <- HD_Failing
          After <- HD_After
CHECK_DEADLOCK FALSE
