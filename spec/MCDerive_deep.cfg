CONSTANTS
  Bytes <- Few
  MaxLen = 7
  Wrong = FALSE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
