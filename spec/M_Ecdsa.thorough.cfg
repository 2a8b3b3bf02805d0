SPECIFICATION Spec
CONSTANTS Curves <- MoreCurves
INVARIANTS OK SignedVerifies OnlySigned NonceGivesSecretAway Emit
CHECK_DEADLOCK FALSE
