SPECIFICATION MCSpec
INVARIANT MergeCorrect
CONSTANTS
  T = 2
  NP = 2
  NR = 2
