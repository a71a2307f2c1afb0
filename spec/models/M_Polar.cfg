INIT Init
NEXT Next
INVARIANTS Sorted Perm EndWeights Between Tabulated Outside AllRe Gridded Increasing
CHECK_DEADLOCK FALSE
CONSTANT Every = 1
