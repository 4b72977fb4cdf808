SPECIFICATION MCSpec
INVARIANT GroupsPartition
INVARIANT SameGroups
INVARIANT InOrder
CONSTANTS
  NS = 6
  NO = 3
