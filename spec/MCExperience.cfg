SPECIFICATION Spec
CONSTANTS
  Periods = 4
INVARIANTS Share Tells Fits Ordered Belief Inverse Wage
CHECK_DEADLOCK FALSE
