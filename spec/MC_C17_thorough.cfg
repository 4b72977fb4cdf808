SPECIFICATION MCSpec
INVARIANT WalkIsWanted
INVARIANT RowByRow
INVARIANT Tiling
INVARIANT Covers
CONSTANTS
  U = 100
  Ths = {6000, 5000, 7000, 4400, 8000, 3600}
  XS = {0, 1000, 3900, 8900, 16000, 18300, 24200, 27990, 33150, 36000, 36500, 52100}
  YS = {0, 800, 3900, 8900, 10300, 16700, 18000}
