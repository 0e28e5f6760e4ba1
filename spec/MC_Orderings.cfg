SPECIFICATION Spec
CONSTANTS N = 4
 Elems = {1, 2, 3}
 MaxG = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
