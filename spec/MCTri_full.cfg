CONSTANTS
 XS = {0, 1, 2, 3}
 YS = {0, 1, 2}
 NMAX = 6
 CUBE = {0, 1}
 NMAX3 = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Plane Space
