SPECIFICATION Spec
CONSTANTS Length = 1
          WithBase = TRUE
INVARIANTS Consistent Commutes Congruent Emit
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
