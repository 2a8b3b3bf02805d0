SPECIFICATION Spec
CONSTANTS Length = 18
INVARIANTS ReadsBack WaysMeet PaysWhoItSays Spends Emit
CHECK_DEADLOCK FALSE
