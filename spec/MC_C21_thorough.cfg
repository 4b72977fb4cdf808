SPECIFICATION MCSpec
INVARIANT MaskIsClip
INVARIANT InOrder
INVARIANT GroupsPartition
CONSTANTS
  NS = 5
