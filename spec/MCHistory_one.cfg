SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {1}
  Lines <- L3
  Depth = 10
  Ask = FALSE
  AtOnce = 1
  Limit = 3
INVARIANTS OnlyLines Bounded NoRepeats Complete
