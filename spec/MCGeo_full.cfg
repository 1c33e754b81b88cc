CONSTANTS
 WIN = 4
 VMAX = 2
 STEPS = 4
 RS = {1, 2, 3, 4, 5, 6}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BoxLaws VecLaws RotLaws ShapeLaws
