SPECIFICATION Spec
CONSTANTS MaxDamage = 1
          Values <- ManyValues
INVARIANTS Intact Answers NoPrefix Checksummed Exact Follows Emit
CHECK_DEADLOCK FALSE
