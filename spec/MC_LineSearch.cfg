SPECIFICATION Spec
CONSTANTS
  Le <- MLe
  Minus <- MMinus
  Times <- MTimes
  Half <- MHalf
  Zero <- MZero
  Armijo <- MArmijo
  Curv <- MCurv
  Small <- MSmall
INVARIANTS TypeOK Bounded Sound Lowest Brackets
CHECK_DEADLOCK FALSE
