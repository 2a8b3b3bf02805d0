SPECIFICATION Spec
CONSTANTS StartState <- Codec_Start
          Failing <- Codec_Failing
          After <- Codec_After
CHECK_DEADLOCK FALSE
