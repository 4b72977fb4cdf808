SPECIFICATION MCSpec
INVARIANT SamplesAreGroups
INVARIANT TimesAddUp
INVARIANT LatencyIsNext
INVARIANT Carried
INVARIANT NoLoss
CONSTANTS
  T = 3
  NOBS = 2
  NDL = 2
  MANY = 4
