SPECIFICATION MCSpec
CONSTANTS
  ND = 8
  NS = 6
CONSTRAINT Small
INVARIANTS WellFormed FewUndefined SumsOfSquares OrderIrrelevant
PROPERTIES MoreIsBetter
