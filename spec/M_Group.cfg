SPECIFICATION Spec
CONSTANTS Primes = {5, 7, 11, 23, 31}
          AssocUpTo = 11
          Coefficients <- Few
INVARIANTS Group Associative Multiples Generated Emit
CHECK_DEADLOCK FALSE
