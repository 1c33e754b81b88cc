CONSTANTS
 PAIRS = {1, 3, 4, 6}
 GAPS = {1, 3, 40}
 GRIDS = {1, 2}
 LATTICE = {0, 1, 3, 8, 12, 16, 24, 40, 64}
 ZS = {0, 3, 4, 6}
 US = {1, 3}
 YS = {0, 1, 10, 100, 200, 300, 400, 500, 600, 700, 800, 900, 950, 990, 999, 1000, 1001, 1010, 1033, 1100, 1200, 1300, 1400, 1500, 1600, 1700, 1800, 1900, 1990, 1999, 2000}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DivFree Sticks OnAxis Driven Mirror Linear CutOff Cut Smooth
