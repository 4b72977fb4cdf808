SPECIFICATION TraceSpec
CONSTANTS
  TOL = 1500
  GRAZE = 25000
