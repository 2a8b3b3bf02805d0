SPECIFICATION Spec
CONSTANTS MaxDamage = 2
          Values <- FewValues
INVARIANTS Intact Answers NoPrefix Checksummed Exact Follows Emit
CHECK_DEADLOCK FALSE
