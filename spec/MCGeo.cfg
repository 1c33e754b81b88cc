CONSTANTS
 WIN = 3
 VMAX = 1
 STEPS = 2
 RS = {2, 3, 4}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BoxLaws VecLaws RotLaws ShapeLaws
