SPECIFICATION MCSpec
INVARIANT AcceptMeaning
INVARIANT CorruptionRejected
INVARIANT SeparatorsKept
CONSTANTS
  CHARS <- CharsThorough
  COLS <- ColsAll
