SPECIFICATION Spec
CONSTANTS Alphabet <- FewChars
          MaxLen = 1
          MaxParams = 2
          MaxPieces = 4
INVARIANTS ReadsBack Unordered SchemeCase EmitUri EmitText
CHECK_DEADLOCK FALSE
