CONSTANTS
  Insts = 2
  Values <- ValuesP
  PPs <- PPsOne
  Aliases = FALSE
  Sharing = "private"
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Inv
PROPERTIES NoUndo
CHECK_DEADLOCK FALSE
