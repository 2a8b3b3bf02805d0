SPECIFICATION Spec
CONSTANTS MaxIns = 1
          MaxOuts = 1
INVARIANTS RoundTrip NoPrefix TrailingRefused Parts IdIsReversed Emit
CHECK_DEADLOCK FALSE
