SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Steps = 5
          Args = {2, 3, 4}
          OneFrame = FALSE
          Coarse = FALSE
INVARIANTS RightResults RightMemory Emit
CHECK_DEADLOCK FALSE
