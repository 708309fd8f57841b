SPECIFICATION Spec
CONSTANTS U = 1
 Wide = FALSE
 NB = 0
 D = 8
 Keys <- MCKeys
 Ballast <- MCBallast
 Caps <- MCCaps
INVARIANTS Shape Lookup NoTrace
PROPERTY RefinesStep
CHECK_DEADLOCK FALSE
