SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Fifo Emit
CHECK_DEADLOCK FALSE
