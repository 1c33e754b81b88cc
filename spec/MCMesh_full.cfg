CONSTANTS
 NMAX = 3
 RMAX = 2
 DIMS = {2, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Static NoneTwice AllOnce
