SPECIFICATION Spec
CONSTANTS
  Rels = {"same", "richer", "lighter"}
  Regimes = {TRUE}
  Rules = {0, 1, 2, 3, 4, 5}
INVARIANTS Optimal Attained Costly Improved Bounded Premised Irrelevant Relevant
VIEW View
CHECK_DEADLOCK FALSE
