SPECIFICATION Spec
CONSTANTS Lengths <- ManyLengths
INVARIANTS Shortest ChosenIsShortest ReadBack Inverse Emit
CHECK_DEADLOCK FALSE
