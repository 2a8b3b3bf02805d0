SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Fifo Emit
CHECK_DEADLOCK FALSE
