SPECIFICATION Spec
CONSTANTS FlagBits = {1, 16, 32, 64, 128, 512}
INVARIANTS FlagsOnlyRefuse P2shRunsRedeem OnlyTheExactForm PushOnlyEnforced ReasonGiven LockTimeRespected Emit
CHECK_DEADLOCK FALSE
