SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxBytes = 5
INVARIANTS BytesRoundTrip Prefixes RawExact TextRoundTrip OneShape TemplatesHaveTheirShape OpTableOneToOne Emit
CHECK_DEADLOCK FALSE
