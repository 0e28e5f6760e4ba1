SPECIFICATION Spec
CONSTANTS
 Add <- IAdd
 Sub <- ISub
 Zero = 0
 One = 1
INVARIANTS Laws Assoc
CHECK_DEADLOCK FALSE
