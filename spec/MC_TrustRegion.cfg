SPECIFICATION MSpec
CONSTANTS
  CLt <- Lt
  CTie <- Never
  Points = {1,2,3}
  Costs = {0,1,2}
  MaxIt = 4
  MaxInv = 2
INVARIANTS Coherent BestOfSeen NeverTooMany StartKept
CHECK_DEADLOCK FALSE
