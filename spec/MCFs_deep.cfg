CONSTANTS
  Procs = {1,2,3}
  Saves = 1
  Protocol = "temp"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds Tidy
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
