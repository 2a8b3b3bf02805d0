SPECIFICATION Spec
INVARIANTS SameElements Cycles Grows OnlyTheTop Laws WithinLaw ResultsMinimal FlagOnlyRefuses DisabledFail Emit
CHECK_DEADLOCK FALSE
