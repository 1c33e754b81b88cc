CONSTANTS
 KINDS = {"dton", "sem"}
 LEN = 8
 ITS = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoTwice RightHandSide Linear Last Ends
