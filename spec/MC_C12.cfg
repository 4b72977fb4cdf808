SPECIFICATION MCSpec
INVARIANT SameText
INVARIANT CacheSound
CONSTANTS
  DEPTH = 4
