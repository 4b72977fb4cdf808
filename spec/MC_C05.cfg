SPECIFICATION MCSpec
INVARIANT ReduceCorrect
CONSTANTS
  VALS = {1, 4}
  OPT = {0, 5}
  NREC = 3
