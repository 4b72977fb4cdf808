SPECIFICATION MCSpec
INVARIANT TrainPattern
CONSTANTS
  TMAX = 9
  MINUTES <- MinutesQuick
