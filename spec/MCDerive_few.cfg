CONSTANTS
  Bytes <- Few
  MaxLen = 5
  Wrong = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
