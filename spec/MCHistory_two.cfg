SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {1,2}
  Lines <- L2
  Depth = 8
  Ask = FALSE
  AtOnce = 2
  Limit = 3
INVARIANTS OnlyLines Bounded NoRepeats Complete
