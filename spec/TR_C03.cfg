SPECIFICATION TraceSpec
INVARIANT MergeCorrect
