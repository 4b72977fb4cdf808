SPECIFICATION MCSpec
INVARIANT VisibilityCorrect
CONSTANTS
  T = 6
  NT = 1
