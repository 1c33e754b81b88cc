CONSTANTS
 GRIDS <- Grids1
 RMAX = 4
 DEPTH = 2
 FVALS = {1}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AfterRefresh Conserved Inserted OwnersAgree LocalPrivate GlobalKept
