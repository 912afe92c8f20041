CONSTANTS
  Procs = {1}
  Saves = 1
  Protocol = "inplace"
SPECIFICATION Spec
INVARIANTS AlwaysComplete DoneHolds
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
