SPECIFICATION TraceSpec
CONSTANTS
  U = 100
