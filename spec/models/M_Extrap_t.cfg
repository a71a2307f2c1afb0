INIT Init
NEXT Next
INVARIANTS Increasing Covers Holds ByAngle
CHECK_DEADLOCK FALSE
CONSTANT Ns = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 31, 40}
