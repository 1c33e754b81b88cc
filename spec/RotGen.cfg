CONSTANTS
 LEN = 7
 M = 2025
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit
