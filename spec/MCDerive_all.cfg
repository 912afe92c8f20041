CONSTANTS
  Bytes <- All
  MaxLen = 2
  Wrong = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
