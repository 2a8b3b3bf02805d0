SPECIFICATION Spec
INVARIANTS AtMostOne AllFound PrefixesTell Emit
CHECK_DEADLOCK FALSE
