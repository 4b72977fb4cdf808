SPECIFICATION MCSpec
CONSTANTS
  LEN = 4
  RAD = 3
  BOX = 9
INVARIANTS Pointwise Free Contrary
CHECK_DEADLOCK FALSE
