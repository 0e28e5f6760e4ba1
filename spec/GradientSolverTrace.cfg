SPECIFICATION Spec
CONSTANTS
  Focus = {"C07", "C09", "C22"}
  Le <- TLe
  Minus <- TMinus
  Times <- TTimes
  Half <- THalf
  Zero <- TZero
  Armijo <- TArmijo
  Curv <- TCurv
  Small <- TSmall
CHECK_DEADLOCK TRUE
