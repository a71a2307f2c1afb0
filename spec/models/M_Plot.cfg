SPECIFICATION Spec
INVARIANTS Owned Complete
PROPERTY Untouched
CHECK_DEADLOCK FALSE
CONSTANTS MaxPolars = 3
 Depth = 3
