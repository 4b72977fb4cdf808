SPECIFICATION MCSpec
INVARIANT WalkIsWanted
INVARIANT RowByRow
INVARIANT Tiling
INVARIANT Covers
CONSTANTS
  U = 100
  Ths = {6000, 5000, 7000}
  XS = {0, 1000, 8900, 16000, 18300, 27990, 36000, 36500, 52100}
  YS = {0, 3900, 10300, 18000}
