SPECIFICATION MCSpec
INVARIANT MergeCorrect
CONSTANTS
  T = 1
  NP = 3
  NR = 2
