CONSTANTS
  Insts = 2
  Values <- ValuesPQ
  PPs <- PPsTwo
  Aliases = FALSE
  Sharing = "careful"
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Whole
PROPERTIES Seen OnlySaves Private NoUndo
CHECK_DEADLOCK FALSE
