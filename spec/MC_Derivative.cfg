SPECIFICATION Spec
CONSTANTS
 Depth = 2
 Degree = 4
INVARIANT Exact
CHECK_DEADLOCK FALSE
