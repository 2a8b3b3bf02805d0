SPECIFICATION Spec
CONSTANTS Leads = {1, 3, 7, 21, 29, 99}
          Offsets <- FewOffsets
INVARIANTS RoundTrip Notation Emit
CHECK_DEADLOCK FALSE
