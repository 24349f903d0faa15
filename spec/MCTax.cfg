SPECIFICATION Spec
CONSTANTS
  Steps = 8
INVARIANTS Marginal Progressive Exempt Continuous Capped Net Joint
CHECK_DEADLOCK FALSE
