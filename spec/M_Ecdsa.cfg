SPECIFICATION Spec
CONSTANTS Curves <- SomeCurves
INVARIANTS OK SignedVerifies OnlySigned NonceGivesSecretAway Emit
CHECK_DEADLOCK FALSE
