CONSTANTS
  Procs = {1,2}
  Saves = 2
  Protocol = "untidy"
SPECIFICATION Spec
INVARIANTS Tidy
CHECK_DEADLOCK FALSE
