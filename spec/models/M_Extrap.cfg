INIT Init
NEXT Next
INVARIANTS Increasing Covers Holds ByAngle
CHECK_DEADLOCK FALSE
CONSTANT Ns = {4, 5, 15, 16}
