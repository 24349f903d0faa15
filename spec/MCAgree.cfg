SPECIFICATION Spec
CONSTANTS
  Worlds = {"steady", "timed", "biased"}
  Regimes = {TRUE}
INVARIANTS Agreed Ending Wrong Disappointed Bearing
VIEW View
CHECK_DEADLOCK FALSE
