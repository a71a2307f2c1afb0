INIT Init
NEXT Next
INVARIANTS Degrees Moments SingleRe Resolved Cylinder Covered
CHECK_DEADLOCK FALSE
CONSTANTS Every = 1
