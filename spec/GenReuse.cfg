SPECIFICATION GenSpec
CONSTANTS
  Models = {1, 2}
  Pars = {1, 2}
  Variants = {1, 2}
  MaxLen = 9
INVARIANT Possible
CHECK_DEADLOCK FALSE
