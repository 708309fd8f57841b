SPECIFICATION Spec
CONSTANTS
  Threads = 2
  OpsPer = 2
  Locks = {"upd", "del"}
INVARIANTS Linearizable Contents
CHECK_DEADLOCK FALSE
