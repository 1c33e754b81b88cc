CONSTANTS
 PAIRS = {1, 2, 3, 4, 5, 6, 7}
 GAPS = {1, 3, 9, 40}
 CUTS = {1, 2, 3, 4}
 LATTICE = {0, 1, 3, 8, 12, 16, 24, 40, 64}
 ZS = {0, 2, 3, 4, 6}
 US = {1, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DivFree Sticks Driven Diff Mirror Odd Same CutOff
