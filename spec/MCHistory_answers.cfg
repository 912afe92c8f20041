SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {1}
  Lines <- L2
  Depth = 5
  Ask = TRUE
  AtOnce = 1
  Limit = 3
INVARIANTS OnlyLines Bounded NoRepeats Complete
