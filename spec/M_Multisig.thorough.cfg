SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS AcceptedInKeyOrder OrderMatters Emit
CHECK_DEADLOCK FALSE
