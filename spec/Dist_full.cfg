CONSTANTS
 NMAX = 3
 RMAX = 4
 WAITALL = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Partition Correct
