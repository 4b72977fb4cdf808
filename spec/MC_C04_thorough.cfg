SPECIFICATION MCSpec
INVARIANT AggregateCorrect
CONSTANTS
  T = 4
  NMULTI = 3
  NSINGLE = 4
