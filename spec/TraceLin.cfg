SPECIFICATION TSpec
CONSTANTS
  Faults = {"uaf", "crash"}
  Lin = TRUE
  Scans = TRUE
CHECK_DEADLOCK FALSE
