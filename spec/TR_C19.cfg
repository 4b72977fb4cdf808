SPECIFICATION TraceSpec
CONSTANTS
  H = 9000
  Q = 4500
