SPECIFICATION MCSpec
CONSTANTS
  Objs = {1, 2, 3}
  Depth = 6
INVARIANTS SameResult ArgumentsKept KeptSound Agree
PROPERTIES KeptStable
CHECK_DEADLOCK FALSE
