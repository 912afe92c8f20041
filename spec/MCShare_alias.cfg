CONSTANTS
  Insts = 2
  Values <- ValuesP
  PPs <- PPsOne
  Aliases = TRUE
  Sharing = "private"
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Whole EmitNode
PROPERTIES Seen OnlySaves Private
CHECK_DEADLOCK FALSE
