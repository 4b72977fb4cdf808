SPECIFICATION MCSpec
CONSTANTS
  ND = 14
  NS = 6
CONSTRAINT Small
INVARIANTS WellFormed FewUndefined SumsOfSquares OrderIrrelevant
PROPERTIES MoreIsBetter
