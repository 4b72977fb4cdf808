SPECIFICATION AnyOrder
INVARIANT SamplesAreGroups
INVARIANT TimesAddUp
INVARIANT LatencyIsNext
INVARIANT Carried
INVARIANT NoLoss
CONSTANTS
  T = 3
  NOBS = 2
  NDL = 1
  MANY = 1
