CONSTANTS
  Procs = {1,2}
  Saves = 1
  Protocol = "fixed"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
