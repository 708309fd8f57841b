SPECIFICATION Spec
CONSTANTS
  T = 2
  O = 3
  Visits = 2
  Fenced = TRUE
  ReadOnce = TRUE
  InNew = TRUE
INVARIANTS Safe Once
CHECK_DEADLOCK FALSE
