INIT Init
NEXT Next
INVARIANTS Pattern Band Symmetric
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 8
