SPECIFICATION MCSpec
CONSTANTS
  Models = {1}
  Pars = {1, 2}
  Variants = {1}
  MaxLen = 4
  Fault = "none"
INVARIANTS Consistent CallsFit Remembered
VIEW View
CHECK_DEADLOCK FALSE
