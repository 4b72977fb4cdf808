SPECIFICATION MCSpec
INVARIANT AcceptMeaning
INVARIANT CorruptionRejected
INVARIANT SeparatorsKept
CONSTANTS
  CHARS <- CharsQuick
  COLS <- ColsAll
