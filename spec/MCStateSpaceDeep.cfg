SPECIFICATION Spec
CONSTANTS
  MaxP = 4
  MaxE = 3
  MaxT = 3
  MaxAge = 4
INVARIANTS IsState Addressed SuccAddressed Heavy
CHECK_DEADLOCK FALSE
