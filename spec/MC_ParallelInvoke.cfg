SPECIFICATION Spec
CONSTANTS
  Callers = {"a"}
  Workers = {"v", "w"}
  NT = 2
  NB = 3
  From = "a"
INVARIANT Counted
PROPERTIES RefinesLoop Ends
CHECK_DEADLOCK TRUE
