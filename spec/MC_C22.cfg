SPECIFICATION MCSpec
INVARIANT GroupsPartition
INVARIANT SameGroups
INVARIANT InOrder
CONSTANTS
  NS = 4
  NO = 3
