CONSTANTS
  Procs = {1,2}
  Saves = 2
  Protocol = "temp"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds Tidy
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
