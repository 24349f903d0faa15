SPECIFICATION Spec
CONSTANTS
  Periods = 6
INVARIANTS Share Tells Fits Ordered Belief Inverse Wage
CHECK_DEADLOCK FALSE
