CONSTANTS
 NMAX = 4
 RMAX = 3
 DIMS = {2}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Static NoneTwice AllOnce
