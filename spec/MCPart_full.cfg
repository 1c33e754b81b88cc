CONSTANTS
 NMAX = 3
 RMAX = 4
 CSTEP = 2
 RADII = {9, 37}
 NSURF = 4
 STARS = {1, 3, 4, 6}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NodesOnce SurfOnce Local SpreadWhole SumsWhole Convex LinearExact Adjoint Balance NoMean
