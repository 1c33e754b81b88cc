CONSTANTS
 XS = {0, 1, 2, 3}
 YS = {0, 1, 2}
 NMAX = 5
 CUBE = {0, 1}
 NMAX3 = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Plane Space
