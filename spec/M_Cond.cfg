SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Flags = 0
INVARIANTS ExecutesSelectedBranches BalancedNeverNegative Limits Emit
PROPERTIES SkippedLeavesStacks
CHECK_DEADLOCK FALSE
