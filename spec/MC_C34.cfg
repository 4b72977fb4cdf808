SPECIFICATION MCSpec
INVARIANTS NeedsMet NothingFromNothing
PROPERTIES OptionsKept
CHECK_DEADLOCK FALSE
