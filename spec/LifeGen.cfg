CONSTANTS
 LEN = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit
