SPECIFICATION MCSpec
INVARIANT TotalShift
INVARIANT InRange
INVARIANT BackAgain
CONSTANTS
  DEPTH = 3
