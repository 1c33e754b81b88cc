CONSTANTS
 GRIDS <- Grids1
 RMAX = 3
 DEPTH = 3
 FVALS = {1}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AfterRefresh Conserved Inserted OwnersAgree LocalPrivate GlobalKept
