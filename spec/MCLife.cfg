CONSTANTS
 KINDS = {"dton", "sem"}
 LEN = 5
 ITS = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoTwice RightHandSide Linear Last Ends
