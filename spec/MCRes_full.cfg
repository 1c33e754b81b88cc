SPECIFICATION Spec
CONSTANTS
  NOPS = 2
  LMAX = 5
  ROUNDS = 4
INVARIANTS TypeOK GivenBack PoolBounded PoolNeeded Judged
CHECK_DEADLOCK FALSE
