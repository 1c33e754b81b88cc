CONSTANTS
 LEN = 16
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Emit
