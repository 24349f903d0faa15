SPECIFICATION Spec
CONSTANTS
  Rels = {"splitting", "partner-pay", "regime", "family", "minimum", "past", "education", "types", "start", "unscaled", "believed", "unbiased", "absorbed"}
  Regimes = {TRUE}
  Rules = {0}
INVARIANTS Optimal Attained Costly Improved Bounded Premised Irrelevant Relevant
VIEW View
CHECK_DEADLOCK FALSE
