CONSTANTS
  Procs = {1}
  Saves = 2
  Protocol = "keep"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
