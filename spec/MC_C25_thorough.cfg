SPECIFICATION MCSpec
CONSTANTS Up = 240
CONSTRAINT Small
INVARIANTS ViewBijective HorizonWidest LawOfSines ElevationFalls
PROPERTIES ClimbReaches
CHECK_DEADLOCK FALSE
