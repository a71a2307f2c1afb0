SPECIFICATION Spec
INVARIANT Placed
PROPERTY Steps
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
 Every = 4
