SPECIFICATION MCSpec
INVARIANT KeepsRegion
INVARIANT OnChart
INVARIANT SizeKept
CONSTANTS
  H = 4
  Q = 2
  XLo = 0
  XHi = 12
  YLo = 0
  YHi = 8
