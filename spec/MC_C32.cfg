SPECIFICATION MCSpec
CONSTANTS
  MAXD = 9
  STRIDE = 2
INVARIANTS Kept Alike
PROPERTY Grows
CHECK_DEADLOCK FALSE
