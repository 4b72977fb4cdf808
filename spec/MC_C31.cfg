SPECIFICATION MCSpec
CONSTANTS
  LEN = 3
  RAD = 3
  BOX = 6
INVARIANTS Pointwise Free Contrary
CHECK_DEADLOCK FALSE
