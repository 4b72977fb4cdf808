SPECIFICATION MCSpec
CONSTANTS
  MAXD = 14
  STRIDE = 1
INVARIANTS Kept Alike
PROPERTY Grows
CHECK_DEADLOCK FALSE
