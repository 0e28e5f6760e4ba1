SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1}
 Depth = 3
INVARIANTS Adjoint Symmetric Conversions Appends Products Zeroed
CHECK_DEADLOCK FALSE
