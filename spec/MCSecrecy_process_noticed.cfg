CONSTANTS
  Rng = "process"
  Keys = {"a", "b"}
  Values = {"p", "q"}
  Depth = 5
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Notices SaltsFresh
CHECK_DEADLOCK FALSE
