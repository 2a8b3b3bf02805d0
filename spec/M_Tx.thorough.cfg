SPECIFICATION Spec
CONSTANTS MaxIns = 2
          MaxOuts = 1
INVARIANTS RoundTrip NoPrefix TrailingRefused Parts IdIsReversed Emit
CHECK_DEADLOCK FALSE
