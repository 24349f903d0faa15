SPECIFICATION Spec
CONSTANTS
  Rels = {"same", "richer", "lighter"}
  Regimes = {TRUE}
  Rules = {1, 5}
INVARIANTS Optimal Attained Costly Improved Bounded Premised Irrelevant Relevant
VIEW View
CHECK_DEADLOCK FALSE
