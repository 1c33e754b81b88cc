SPECIFICATION Spec
CONSTANTS
  NS = {4}
  PERS <- PersC
  HS <- HsC
  VELS <- VelsC
  DEPTH = 3
INVARIANT Undone
INVARIANT KnownStaysKnown
INVARIANT PlainStays
INVARIANT Reflections
INVARIANT Sizes
INVARIANT Inside
CHECK_DEADLOCK FALSE
