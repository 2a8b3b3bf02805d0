SPECIFICATION Spec
CONSTANTS Lengths = {1, 2, 20, 75, 76, 77, 255, 256}
INVARIANTS Shortest ChosenIsShortest ReadBack Inverse Emit
CHECK_DEADLOCK FALSE
