CONSTANTS
 Settings = {1}
 MaxOps = 0
SPECIFICATION TraceSpec
