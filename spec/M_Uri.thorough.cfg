SPECIFICATION Spec
CONSTANTS Alphabet <- Chars
          MaxLen = 2
          MaxParams = 1
          MaxPieces = 5
INVARIANTS ReadsBack Unordered SchemeCase EmitUri EmitText
CHECK_DEADLOCK FALSE
