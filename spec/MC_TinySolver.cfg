SPECIFICATION Spec
CONSTANTS Costs = {0, 1, 2, 3}
 Max = 5
INVARIANTS Descends Bounded
CHECK_DEADLOCK FALSE
