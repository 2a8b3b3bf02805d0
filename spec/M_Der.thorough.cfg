SPECIFICATION Spec
CONSTANTS Budget = 2
          Bodies <- MoreBodies
INVARIANTS Agrees Exact Emit
CHECK_DEADLOCK FALSE
