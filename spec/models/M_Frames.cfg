INIT Init
NEXT Next
INVARIANTS Orthogonal Handed PathFree
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 Every = 1
