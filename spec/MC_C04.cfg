SPECIFICATION MCSpec
INVARIANT AggregateCorrect
CONSTANTS
  T = 4
  NMULTI = 2
  NSINGLE = 4
