SPECIFICATION Spec
CONSTANTS StartState <- Mix_Start
          Failing <- Mix_Failing
          After <- Mix_After
CHECK_DEADLOCK FALSE
