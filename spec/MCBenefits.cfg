SPECIFICATION Spec
CONSTANTS
  Wages = 12
  Males = 4
INVARIANTS Floor Minimum Parental Flat Rises SameForOthers Working Bins Scale
CHECK_DEADLOCK FALSE
