CONSTANTS
 NMAX = 3
 RMAX = 3
 CSTEP = 5
 RADII = {9, 37}
 NSURF = 3
 STARS = {1, 4}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NodesOnce SurfOnce Local SpreadWhole SumsWhole Convex LinearExact Adjoint Balance NoMean
