SPECIFICATION MCSpec
INVARIANT FieldsApart
INVARIANT StaysValid
CONSTANTS
  DEPTH = 3
