SPECIFICATION TSpec
CONSTANTS
  Slots = {1,2,3,4,5,6,7,8,9,10,11,12}
  Costs = {}
  Losses = {}
  Mans = {}
  MaxRes = 0
INVARIANTS TypeOK ResidualsRefer IdsUnique ManifoldFits
CHECK_DEADLOCK TRUE
