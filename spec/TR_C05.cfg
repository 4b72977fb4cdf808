SPECIFICATION TraceSpec
INVARIANT ReduceCorrect
