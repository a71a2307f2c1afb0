INIT Init
NEXT Next
INVARIANTS StationsInside SectorRule EquallySpaced
CHECK_DEADLOCK FALSE
CONSTANTS
  SectorRequests = {1, 4, 7}
  Blades = {1, 3}
  Every = 6
