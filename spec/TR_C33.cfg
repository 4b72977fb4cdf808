SPECIFICATION TraceSpec
INVARIANT LatencyIsNext
INVARIANT NoLoss
