INIT Init
NEXT Next
INVARIANTS StationsInside SectorRule EquallySpaced
CHECK_DEADLOCK FALSE
CONSTANTS
  SectorRequests = {1, 3, 4, 7, 8}
  Blades = {1, 2, 3}
  Every = 15
