CONSTANTS
  Insts = 2
  Values <- ValuesPQ
  PPs <- PPsOne
  Aliases = FALSE
  Sharing = "private"
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Whole EmitNode
PROPERTIES Seen OnlySaves Private
CHECK_DEADLOCK FALSE
