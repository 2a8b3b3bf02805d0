SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS AcceptedInKeyOrder OrderMatters Emit
CHECK_DEADLOCK FALSE
