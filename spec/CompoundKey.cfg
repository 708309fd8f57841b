SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxRank = 2
INVARIANT Exact
CHECK_DEADLOCK FALSE
