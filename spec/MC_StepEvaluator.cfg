SPECIFICATION Spec
CONSTANTS
  MaxCost = 3
  MaxModel = 2
  MaxLen = 6
  MaxWin = 3
INVARIANTS Meaning Reference Monotonic Descends Unbounded
CHECK_DEADLOCK FALSE
