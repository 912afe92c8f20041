CONSTANTS
  Rng = "fresh"
  Keys = {"a", "b"}
  Values = {"p", "q"}
  Depth = 7
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Notices SaltsFresh Content NeverReused EmitOps
CHECK_DEADLOCK FALSE
