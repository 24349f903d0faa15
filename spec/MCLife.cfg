SPECIFICATION Spec
CONSTANTS
  Periods = 4
  AgeMax = 2
  LastBear = 2
INVARIANTS Legal Exact Lives StartLegal
CHECK_DEADLOCK FALSE
