SPECIFICATION Spec
CONSTANTS MaxHits = 2
INVARIANTS Canonical Noticed SecCanonical Emit
CHECK_DEADLOCK FALSE
