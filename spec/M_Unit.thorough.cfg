SPECIFICATION Spec
CONSTANTS Leads = {1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 17, 19, 21, 29, 57, 58, 99, 101, 113, 114, 115, 999, 1001, 9999, 12345, 20999, 65537}
          Offsets <- ManyOffsets
INVARIANTS RoundTrip Notation Emit
CHECK_DEADLOCK FALSE
