INIT Init
NEXT Next
INVARIANTS NoSharing
PROPERTIES OnlyTarget
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 3
 MaxVecs = 5
 Every = 7
