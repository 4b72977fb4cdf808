SPECIFICATION MCSpec
INVARIANT TrainPattern
CONSTANTS
  TMAX = 12
  MINUTES <- MinutesThorough
