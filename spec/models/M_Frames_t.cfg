INIT Init
NEXT Next
INVARIANTS Orthogonal Handed PathFree
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 7
 Every = 1
