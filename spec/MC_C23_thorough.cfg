SPECIFICATION MCSpec
INVARIANT EveryPixelOnce
INVARIANT TimeOrder
INVARIANT Spread
CONSTANTS
  NT = 4
  NP = 5
