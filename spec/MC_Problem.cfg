SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Costs = {1, 3}
  Losses = {}
  Mans = {1, 5}
  MaxRes = 2
INVARIANTS TypeOK ResidualsRefer IdsUnique IdsIncrease ManifoldFits
PROPERTIES RemoveIsExact BlocksSurviveResidualRemoval
CHECK_DEADLOCK FALSE
