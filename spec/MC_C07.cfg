SPECIFICATION MCSpec
INVARIANT LatencyCorrect
CONSTANTS
  T = 3
  NOBS = 2
  NDL = 2
