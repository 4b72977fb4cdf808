CONSTANTS
 MaxTime = 20
 Spring = 5
 Fall = 13
 MaxSteps = 3
SPECIFICATION MCSpec
INVARIANTS Resolved WallArithmetic WallOrder
CHECK_DEADLOCK FALSE
