CONSTANTS
 NMAX = 4
 SMAX = 4
 DEPTH = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InterpLaws PieceLaws FileLaws OptLaws
