SPECIFICATION GSpec
CONSTANTS
  Slots = {1,2,3,4,5,6,7,8,9}
  Costs = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}
  Losses = {1,2,3,4,5,6,7,8,9,10,11,12}
  Mans = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}
  MaxRes = 8
  MaxLen = 30
  EvalPct = 5
  MisusePct = 3
  SolvePct = 3
  FailPct = 5
  NSlotsUsed = 9
  MaxBlocks = 7
CHECK_DEADLOCK FALSE
