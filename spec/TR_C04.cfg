SPECIFICATION TraceSpec
INVARIANT AggregateCorrect
