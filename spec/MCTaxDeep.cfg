SPECIFICATION Spec
CONSTANTS
  Steps = 40
INVARIANTS Marginal Progressive Exempt Continuous Capped Net Joint
CHECK_DEADLOCK FALSE
