SPECIFICATION MCSpec
INVARIANT WalkerPattern
INVARIANT WalkerDistinct
INVARIANT WalkerSymmetric
CONSTANTS
  TMAX = 18
