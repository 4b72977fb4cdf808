SPECIFICATION TraceSpec
CONSTANTS
  Objs = {1, 2}
  Depth = 5
