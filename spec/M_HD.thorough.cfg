SPECIFICATION Spec
CONSTANTS Steps = 4
          Seeds <- SomeSeeds
          Indices <- MoreIndices
INVARIANTS Commutes ReadsBack PathKept VectorsOK Emit
CHECK_DEADLOCK FALSE
