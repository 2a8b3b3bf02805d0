SPECIFICATION Spec
CONSTANTS MaxHits = 1
INVARIANTS Canonical Noticed SecCanonical Emit
CHECK_DEADLOCK FALSE
