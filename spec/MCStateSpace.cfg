SPECIFICATION Spec
CONSTANTS
  MaxP = 3
  MaxE = 2
  MaxT = 2
  MaxAge = 2
INVARIANTS IsState Addressed SuccAddressed Heavy
CHECK_DEADLOCK FALSE
