CONSTANTS
  Bytes <- Few
  MaxLen = 4
  Wrong = TRUE
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
