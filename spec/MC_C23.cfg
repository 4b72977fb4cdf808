SPECIFICATION MCSpec
INVARIANT EveryPixelOnce
INVARIANT TimeOrder
INVARIANT Spread
CONSTANTS
  NT = 3
  NP = 3
