INIT Init
NEXT Next
INVARIANT Pure
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Rotors = {1, 2, 3}
  MaxCalls = 3
  Every = 20
