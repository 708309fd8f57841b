SPECIFICATION TSpec
CONSTANTS
  Protect = TRUE
  Account = TRUE
  Faults = {"uaf", "crash", "deadlock", "hang"}
CHECK_DEADLOCK FALSE
