CONSTANTS
  Rng = "process"
  Keys = {"a", "b"}
  Values = {"p", "q"}
  Depth = 5
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Pleased
CHECK_DEADLOCK FALSE
