SPECIFICATION Spec
CONSTANTS
  Callers = {"a", "b"}
  Workers = {"v"}
  NT = 3
  NB = 2
  From = "none"
INVARIANT Counted
PROPERTIES RefinesLoop
CHECK_DEADLOCK TRUE
