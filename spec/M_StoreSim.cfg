SPECIFICATION Spec
CONSTANTS Length = 16
          WithBase = TRUE
INVARIANTS Consistent Commutes Congruent Emit
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
