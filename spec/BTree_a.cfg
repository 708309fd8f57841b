SPECIFICATION Spec
CONSTANTS K = 7
 NS = 128
 HDR = 48
 KVL = 16
 KVI = 16
 PTR = 8
 SLOT = 4
 THR = 50
INVARIANTS Structure Sorted Iteration Lookup
PROPERTY RefinesStep
CHECK_DEADLOCK FALSE
