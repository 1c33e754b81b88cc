CONSTANTS
 PAIRS = {1, 4}
 GAPS = {1, 3}
 GRIDS = {2}
 LATTICE = {0, 3, 12, 16, 40}
 ZS = {0, 3, 6}
 US = {3}
 YS = {0, 1, 300, 690, 950, 1000, 1033, 1500, 1901, 1999, 2000}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DivFree Sticks OnAxis Driven Mirror Linear CutOff Cut Smooth
