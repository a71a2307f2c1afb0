INIT Init
NEXT Next
INVARIANTS Fresh Kept
PROPERTY Apart
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 7
  Every = 61
