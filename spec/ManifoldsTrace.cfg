SPECIFICATION Spec
CONSTANTS
 Add <- DAdd
 Sub <- DSub
 Zero <- DZero
 One <- DOne
CHECK_DEADLOCK TRUE
