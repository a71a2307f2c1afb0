SPECIFICATION Spec
INVARIANTS Preferred Bracketed StdFirst Guaranteed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
