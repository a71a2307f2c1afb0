SPECIFICATION Spec
INVARIANTS Bracketed Right Unique
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANT N = 8
