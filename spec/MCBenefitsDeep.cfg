SPECIFICATION Spec
CONSTANTS
  Wages = 100
  Males = 20
INVARIANTS Floor Minimum Parental Flat Rises SameForOthers Working Bins Scale
CHECK_DEADLOCK FALSE
