SPECIFICATION Spec
CONSTANTS Budget = 1
          Bodies <- SmallBodies
INVARIANTS Agrees Exact Emit
CHECK_DEADLOCK FALSE
