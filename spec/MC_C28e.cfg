CONSTANTS
 Settings = {1, 2}
 MaxOps = 4
SPECIFICATION MCSpec
INVARIANTS LateBinding
PROPERTIES CallsDoNotConfigure OthersUntouched
CHECK_DEADLOCK FALSE
