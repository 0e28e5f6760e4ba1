SPECIFICATION Spec
CONSTANTS NB = 3 NR = 2 Stranger = 9
INVARIANTS Complete Eliminates Buckets SameSolver Accepts
CHECK_DEADLOCK TRUE
