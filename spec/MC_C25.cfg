SPECIFICATION MCSpec
CONSTANTS Up = 60
CONSTRAINT Small
INVARIANTS ViewBijective HorizonWidest LawOfSines ElevationFalls
PROPERTIES ClimbReaches
CHECK_DEADLOCK FALSE
