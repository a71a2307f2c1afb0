INIT Init
NEXT Next
INVARIANTS OwnResult Bystander Tidied Given
CHECK_DEADLOCK FALSE
CONSTANTS
  Multi = TRUE
  Every = 1
