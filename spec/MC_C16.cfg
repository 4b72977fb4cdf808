SPECIFICATION MCSpec
INVARIANT CacheTrue
INVARIANT LazyOnly
INVARIANT FoldSound
INVARIANT UnrollSound
CONSTANTS
  DEPTH = 3
