SPECIFICATION Spec
CONSTANTS
  NKeys = 3
  HashOf <- Hashes
  NB0 = 2
  Limit = 1
  Threads = 2
  OpsPer = 1
  Kinds = {"ins", "ups", "del", "sea"}
  InitKeys <- Inits
  ChainLock = TRUE
  StaleCheck = TRUE
  LockedSearch = TRUE
INVARIANTS Linearizable Quiescent NoDeadlock
CHECK_DEADLOCK FALSE
