SPECIFICATION Spec
CONSTANTS
  NOPS = 2
  LMAX = 4
  ROUNDS = 4
INVARIANTS TypeOK GivenBack PoolBounded PoolNeeded Judged
CHECK_DEADLOCK FALSE
