SPECIFICATION MCSpec
CONSTANTS
  Objs = {1, 2}
  Depth = 5
INVARIANTS SameResult ArgumentsKept KeptSound Agree
PROPERTIES KeptStable
CHECK_DEADLOCK FALSE
