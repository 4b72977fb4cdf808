SPECIFICATION MCSpec
INVARIANT VisibilityCorrect
INVARIANT JudgementExact
CONSTANTS
  T = 6
  TOL = 0
  GRAZE = 0
