CONSTANTS
 MaxTime = 20
 Spring = 5
 Fall = 13
 MaxSteps = 0
SPECIFICATION TraceSpec
