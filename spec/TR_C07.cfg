SPECIFICATION TraceSpec
INVARIANT LatencyCorrect
