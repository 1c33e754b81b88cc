CONSTANTS
 NMAX = 3
 SMAX = 3
 DEPTH = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InterpLaws PieceLaws FileLaws OptLaws
