SPECIFICATION MCSpec
INVARIANT AlwaysClosest
INVARIANT NeverBack
INVARIANT AtMidpoints
CONSTANTS
  SPAN = 3
  NSETS = 3
