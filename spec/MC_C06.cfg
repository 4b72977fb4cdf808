SPECIFICATION MCSpec
INVARIANT GridCorrect
INVARIANT MeanInRange
CONSTANTS
  NPTS = 2
