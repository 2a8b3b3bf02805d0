SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 127, 128, 129, 253, 255}
          MaxLen = 5
INVARIANTS Base58RoundTrip Base58Checked IntRoundTrip VarIntRoundTrip NumRoundTrip MinimalRule Emit
CHECK_DEADLOCK FALSE
