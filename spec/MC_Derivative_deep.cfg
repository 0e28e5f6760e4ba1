SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Degree = 4
INVARIANT Exact
CHECK_DEADLOCK FALSE
