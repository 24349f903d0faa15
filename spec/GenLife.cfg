SPECIFICATION Spec
CONSTANTS
  P = 5
  AgeMax = 2
  AgeInitMax = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
