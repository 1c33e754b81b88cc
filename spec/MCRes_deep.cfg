SPECIFICATION Spec
CONSTANTS
  NOPS = 3
  LMAX = 3
  ROUNDS = 4
INVARIANTS TypeOK GivenBack PoolBounded PoolNeeded Judged
CHECK_DEADLOCK FALSE
