SPECIFICATION Spec
CONSTANTS
  NS = {4, 5}
  PERS <- PersC
  HS <- HsC
  VELS <- VelsC
  DEPTH = 2
INVARIANT Undone
INVARIANT KnownStaysKnown
INVARIANT PlainStays
INVARIANT Reflections
INVARIANT Sizes
INVARIANT Inside
CHECK_DEADLOCK FALSE
