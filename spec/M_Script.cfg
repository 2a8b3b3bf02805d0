SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxBytes = 3
INVARIANTS BytesRoundTrip Prefixes RawExact TextRoundTrip OneShape TemplatesHaveTheirShape OpTableOneToOne Emit
CHECK_DEADLOCK FALSE
