SPECIFICATION MCSpec
INVARIANT OutlineIsBoundary
INVARIANT CentreSeen
PROPERTY Grows
CONSTRAINT Small
CONSTANTS
  NA1 = 4
  ND = 3
  NL = 20
