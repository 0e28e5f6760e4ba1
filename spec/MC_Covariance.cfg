SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxSize = 2
INVARIANTS Answers Shape
CHECK_DEADLOCK FALSE
