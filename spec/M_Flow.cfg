SPECIFICATION Spec
CONSTANTS Length = 10
INVARIANTS ReadsBack WaysMeet PaysWhoItSays Spends Emit
CHECK_DEADLOCK FALSE
