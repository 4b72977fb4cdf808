SPECIFICATION MCSpec
INVARIANT KeepsRegion
INVARIANT OnChart
INVARIANT SizeKept
CONSTANTS
  H = 6
  Q = 3
  XLo = 0
  XHi = 16
  YLo = 0
  YHi = 10
