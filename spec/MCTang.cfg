CONSTANTS
 PAIRS = {1, 4}
 GAPS = {1, 3}
 CUTS = {1, 2}
 LATTICE = {0, 3, 8, 12, 16, 40}
 ZS = {0, 3, 6}
 US = {3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DivFree Sticks Driven Diff Mirror Odd Same CutOff
