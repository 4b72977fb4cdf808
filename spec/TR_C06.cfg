SPECIFICATION TraceSpec
INVARIANT GridCorrect
