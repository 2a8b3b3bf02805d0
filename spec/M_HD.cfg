SPECIFICATION Spec
CONSTANTS Steps = 3
          Seeds <- SomeSeeds
          Indices <- SomeIndices
INVARIANTS Commutes ReadsBack PathKept VectorsOK Emit
CHECK_DEADLOCK FALSE
