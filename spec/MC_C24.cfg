SPECIFICATION MCSpec
INVARIANT OutlineIsBoundary
INVARIANT CentreSeen
PROPERTY Grows
CONSTRAINT Small
CONSTANTS
  NA1 = 3
  ND = 2
  NL = 6
