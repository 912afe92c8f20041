CONSTANTS
  Procs = {1}
  Saves = 1
  Protocol = "unlink"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
