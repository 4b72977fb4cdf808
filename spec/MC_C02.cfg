SPECIFICATION MCSpec
INVARIANT VisibilityCorrect
INVARIANT JudgementExact
CONSTANTS
  T = 4
  TOL = 0
  GRAZE = 0
