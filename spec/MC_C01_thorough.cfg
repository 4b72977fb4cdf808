SPECIFICATION MCSpec
INVARIANT VisibilityCorrect
CONSTANTS
  T = 5
  NT = 2
