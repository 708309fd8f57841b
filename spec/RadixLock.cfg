SPECIFICATION Spec
CONSTANTS
  Keys <- KeySet
  Threads = 2
  OpsPer = 1
  Kinds = {"ins", "ups", "upd", "del", "sea"}
  Inits <- InitSet
  Which = "two"
  CheckVersion = TRUE
  CheckDead = TRUE
  MarkDead = TRUE
  CheckRoot = TRUE
  BumpVersion = TRUE
  DecompLock = TRUE
  ReplDead = TRUE
INVARIANTS Linearizable Quiescent NoDeadlock DeadOnce
CHECK_DEADLOCK FALSE
