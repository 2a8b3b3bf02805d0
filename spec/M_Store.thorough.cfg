SPECIFICATION Spec
CONSTANTS Length = 2
          WithBase = TRUE
INVARIANTS Consistent Commutes Congruent Emit
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
