SPECIFICATION Spec
CONSTANTS
  NKeys = 4
  Cap = 3
  Merge = 1
  TrimAt = 2
  ICap = 4
  IMerge = 1
  Threads = 2
  OpsPer = 1
  Kinds = {"ins", "ups", "upd", "del", "sea"}
  Calls <- AnyKey
  Trees <- Inits
  Which = {"empty", "full", "dead", "merge", "tight", "three"}
  LeafCheck = TRUE
  ParentCheck = TRUE
  SplitCheck = TRUE
  MarkDeleted = TRUE
  SearchCheck = TRUE
  Pess = TRUE
INVARIANTS Linearizable Quiescent NoDeadlock NeverLost ScanOk
CHECK_DEADLOCK FALSE
