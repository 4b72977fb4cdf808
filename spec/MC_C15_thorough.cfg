SPECIFICATION MCSpec
INVARIANT AlwaysClosest
INVARIANT NeverBack
INVARIANT AtMidpoints
CONSTANTS
  SPAN = 4
  NSETS = 4
