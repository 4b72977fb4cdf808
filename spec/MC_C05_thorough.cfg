SPECIFICATION MCSpec
INVARIANT ReduceCorrect
CONSTANTS
  VALS = {1, 4}
  OPT = {0}
  NREC = 4
