SPECIFICATION Spec
CONSTANTS
  Periods = 6
  AgeMax = 3
  LastBear = 3
INVARIANTS Legal Exact Lives StartLegal
CHECK_DEADLOCK FALSE
