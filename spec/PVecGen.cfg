CONSTANTS
 LEN = 14
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit
