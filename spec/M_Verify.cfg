SPECIFICATION Spec
CONSTANTS FlagBits = {1, 32, 64, 512}
INVARIANTS FlagsOnlyRefuse P2shRunsRedeem OnlyTheExactForm PushOnlyEnforced ReasonGiven LockTimeRespected Emit
CHECK_DEADLOCK FALSE
