SPECIFICATION Spec
CONSTANTS Primes = {5, 7, 11, 13, 17, 19, 23}
          AssocUpTo = 19
          Coefficients <- All
INVARIANTS Group Associative Multiples Generated Emit
CHECK_DEADLOCK FALSE
