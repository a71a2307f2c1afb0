SPECIFICATION Spec
INVARIANT Placed
PROPERTY Steps
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
 Every = 40
