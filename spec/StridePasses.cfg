SPECIFICATION Spec
CONSTANTS
 MaxBlocks = 5
 MaxSize = 3
 MaxStride = 4
INVARIANTS InRange Complete
CHECK_DEADLOCK FALSE
