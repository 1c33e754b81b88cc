CONSTANTS
 NMAX = 3
 RMAX = 3
 WAITALL = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Partition Correct
