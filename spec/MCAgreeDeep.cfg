SPECIFICATION Spec
CONSTANTS
  Worlds = {"steady", "timed", "bearing", "biased", "unit", "childless"}
  Regimes = {TRUE, FALSE}
INVARIANTS Agreed Ending Wrong Disappointed Bearing
VIEW View
CHECK_DEADLOCK FALSE
